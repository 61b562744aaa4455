// Instrumented memory accesses (code compiled with -fsanitize=thread): every access to memory that may be shared is a
// point at which the thread can be preempted, just before the access. No race detection: what counts is what a race does.
#include "sim.hh"
#include <cstdint>
void access_point();
#define X extern "C" __attribute__( ( visibility( "default" ) ) )
#define ACC( n ) X void n( void * ) { access_point(); }
X void __tsan_init() {}
X void __tsan_func_entry( void * ) {}
X void __tsan_func_exit() {}
ACC( __tsan_read1 ) ACC( __tsan_read2 ) ACC( __tsan_read4 ) ACC( __tsan_read8 ) ACC( __tsan_read16 )
ACC( __tsan_write1 ) ACC( __tsan_write2 ) ACC( __tsan_write4 ) ACC( __tsan_write8 ) ACC( __tsan_write16 )
ACC( __tsan_unaligned_read2 ) ACC( __tsan_unaligned_read4 ) ACC( __tsan_unaligned_read8 ) ACC( __tsan_unaligned_read16 )
ACC( __tsan_unaligned_write2 ) ACC( __tsan_unaligned_write4 ) ACC( __tsan_unaligned_write8 ) ACC( __tsan_unaligned_write16 )
ACC( __tsan_volatile_read1 ) ACC( __tsan_volatile_read2 ) ACC( __tsan_volatile_read4 ) ACC( __tsan_volatile_read8 ) ACC( __tsan_volatile_read16 )
ACC( __tsan_volatile_write1 ) ACC( __tsan_volatile_write2 ) ACC( __tsan_volatile_write4 ) ACC( __tsan_volatile_write8 ) ACC( __tsan_volatile_write16 )
ACC( __tsan_vptr_read )
X void __tsan_vptr_update( void *, void * ) { access_point(); }
X void __tsan_read_range( void *, unsigned long ) { access_point(); }
X void __tsan_write_range( void *, unsigned long ) { access_point(); }
X void __tsan_atomic_thread_fence( int ) { __sync_synchronize(); }
X void __tsan_atomic_signal_fence( int ) {}
#define AT( B, T ) \
  X T __tsan_atomic##B##_load( const volatile T * a, int ) { access_point(); return __atomic_load_n( a, 5 ); } \
  X void __tsan_atomic##B##_store( volatile T * a, T v, int ) { access_point(); __atomic_store_n( a, v, 5 ); } \
  X T __tsan_atomic##B##_exchange( volatile T * a, T v, int ) { access_point(); return __atomic_exchange_n( a, v, 5 ); } \
  X T __tsan_atomic##B##_fetch_add( volatile T * a, T v, int ) { access_point(); return __atomic_fetch_add( a, v, 5 ); } \
  X T __tsan_atomic##B##_fetch_sub( volatile T * a, T v, int ) { access_point(); return __atomic_fetch_sub( a, v, 5 ); } \
  X T __tsan_atomic##B##_fetch_and( volatile T * a, T v, int ) { access_point(); return __atomic_fetch_and( a, v, 5 ); } \
  X T __tsan_atomic##B##_fetch_or( volatile T * a, T v, int ) { access_point(); return __atomic_fetch_or( a, v, 5 ); } \
  X T __tsan_atomic##B##_fetch_xor( volatile T * a, T v, int ) { access_point(); return __atomic_fetch_xor( a, v, 5 ); } \
  X T __tsan_atomic##B##_fetch_nand( volatile T * a, T v, int ) { access_point(); return __atomic_fetch_nand( a, v, 5 ); } \
  X int __tsan_atomic##B##_compare_exchange_strong( volatile T * a, T * c, T v, int, int ) { access_point(); return __atomic_compare_exchange_n( a, c, v, 0, 5, 5 ); } \
  X int __tsan_atomic##B##_compare_exchange_weak( volatile T * a, T * c, T v, int, int ) { access_point(); return __atomic_compare_exchange_n( a, c, v, 0, 5, 5 ); } \
  X T __tsan_atomic##B##_compare_exchange_val( volatile T * a, T c, T v, int, int ) { access_point(); __atomic_compare_exchange_n( a, &c, v, 0, 5, 5 ); return c; }
AT( 8, uint8_t ) AT( 16, uint16_t ) AT( 32, uint32_t ) AT( 64, uint64_t )
