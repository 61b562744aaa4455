// Stand-in for the OpenGL display: hands every drawn picture to the simulator.
#ifndef DISPLAY_HH
#define DISPLAY_HH
#include <string>
#include "raster.hh"
#include "exception.hh"
extern "C" void sim_display_open( unsigned w, unsigned h );
extern "C" void sim_display_draw( unsigned w, unsigned h, unsigned cw, unsigned ch,
                                  const unsigned char * y, const unsigned char * u, const unsigned char * v, unsigned ystride, unsigned cstride );
class VideoDisplay
{
private:
  unsigned int width_, height_;
public:
  VideoDisplay( const BaseRaster & raster, const bool fullscreen = false )
    : width_( raster.width() ), height_( raster.height() ) { (void) fullscreen; sim_display_open( raster.display_width(), raster.display_height() ); }
  VideoDisplay( const VideoDisplay & other ) = delete;
  VideoDisplay & operator=( const VideoDisplay & other ) = delete;
  void draw( const BaseRaster & raster )
  {
    if ( width_ != raster.width() or height_ != raster.height() ) { throw Invalid( "inconsistent raster dimensions." ); }
    sim_display_draw( raster.display_width(), raster.display_height(), raster.chroma_display_width(), raster.chroma_display_height(),
                      &raster.Y().at( 0, 0 ), &raster.U().at( 0, 0 ), &raster.V().at( 0, 0 ), raster.width(), raster.width() / 2 );
  }
  void repaint( void ) {}
  void resize( const std::pair<unsigned int, unsigned int> & ) {}
};
#endif
