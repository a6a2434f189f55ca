// SimCL: a simulated OpenCL runtime with devices which execute the kernels of the library itself, work item by work item, in a seeded order.
#pragma once
#include "rt.h"
#include <cstddef>
#include <cstdint>

struct ClDeviceConfig
{
    uint32_t wg = 16; // work items in a group
    uint32_t alignBits = 1024; // CL_DEVICE_MEM_BASE_ADDR_ALIGN
    uint64_t maxAlloc = 1u << 20, capacity = 1u << 22;
    bool cpu = false;
    bool broken = false; // no context can be created
};

struct ClConfig
{
    int platforms = 1;
    int devices[2] = { 1, 0 };
    ClDeviceConfig dev[4];
    bool reuse = false; // handles of released objects are used again
    uint32_t eager = 0; // a pending command is executed at a call with a probability of eager/8
    uint8_t junk = 0xCD; // content of new device memory; 0: different everywhere
    uint32_t order = 0; // 0 in order; 1 reverse; 2 random order; 3 random order and overlap
};

extern "C" {
void cl_begin( const ClConfig & c ); // at the start of a run
void cl_faults( uint32_t oneIn ); // about one in that many calls fails; 0: off
void cl_fail_at( uint32_t k ); // exactly the k-th call from now fails; 0: none
void cl_fail_name( const char * part, uint32_t k ); // the k-th call from now of a function whose name contains part fails
void cl_lost_at( uint32_t k ); // the k-th call from now and all further calls fail
void cl_async_faults( uint32_t oneIn ); // about one in that many kernels fails while it is executed
void cl_faults_off();
void cl_set_broken( int device, bool broken );
uint64_t cl_calls();
uint64_t cl_failed(); // including refused allocations and kernels which have failed
const char * cl_last_failed();
void cl_peek( const void * mem, void * out, size_t n ); // back door to the memory of a device
void cl_poke( const void * mem, const void * in, size_t n );
size_t cl_mem_size( const void * mem );
int cl_mem_device( const void * mem ); // of the context
uint64_t cl_device_used( int device );
uint64_t cl_live( char * buf, size_t n ); // objects which have not been released
void cl_check_released(); // fails if there are any
// runs fn outside of any run in a copy of the process to learn about all programs it builds, and compiles them
void cl_warm( void ( *fn )() );
bool cl_collecting();
}
