#pragma once
#include <cstdint>
extern "C" uint16_t sim_camera_width( void );
extern "C" uint16_t sim_camera_height( void );
