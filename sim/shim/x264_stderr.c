/* libx264.a is not position independent in one place: its use of stderr. */
#include <stdio.h>
__attribute__((visibility("hidden"))) FILE *sim_x264_stderr;
