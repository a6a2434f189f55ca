// SimCUDA: simulated CUDA devices which execute the kernels of the library itself, work item by work item, in a seeded order. Work given to a device is
// executed some time later unless a call waits for it; work of different streams overlaps.
#pragma once
#include "rt.h"
#include <cstddef>
#include <cstdint>

struct CudaConfig
{
    int devices = 1;
    uint32_t threads[4] = { 32, 32, 32, 32 }; // in a block
    uint32_t dim[4][3] = { { 32, 32, 32 }, { 32, 32, 32 }, { 32, 32, 32 }, { 32, 32, 32 } };
    uint64_t capacity = 1u << 22;
    bool reuse = false; // addresses of released memory are used again
    uint32_t eager = 0; // pending work is executed at a call with a probability of eager/8
    uint8_t junk = 0xCD; // content of new device memory; 0: different everywhere
    uint32_t order = 0; // 0 in order; 1 reverse; 2 random order; 3 random order and overlap
};

extern "C" {
void cuda_begin( const CudaConfig & c ); // at the start of a run
void cuda_faults( uint32_t oneIn );
void cuda_fail_at( uint32_t k ); // exactly the k-th call from now fails; 0: none
void cuda_fail_name( const char * part, uint32_t k );
void cuda_lost_at( uint32_t k ); // the k-th call from now and all further calls fail
void cuda_async_faults( uint32_t oneIn ); // about one in that many kernels fails while it is executed; so do all further calls
void cuda_faults_off();
uint64_t cuda_failed();
bool cuda_is_lost();
const char * cuda_last_failed();
void cuda_finish(); // everything given to any device is executed
void cuda_peek( const void * p, void * out, size_t n );
void cuda_poke( void * p, const void * in, size_t n );
size_t cuda_mem_size( const void * p ); // bytes from p to the end of the block of memory
int cuda_mem_device( const void * p );
uint64_t cuda_used( int device );
void cuda_check_released();
void cuda_late_release(); // from now a release of memory of a closed device is an error which a program can ignore
int cuda_current( int set ); // the device of this thread; set < 0: only ask
}
