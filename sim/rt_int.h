// SimRT internals shared between the runtime's translation units (not visible for scenarios).
#pragma once
#include "rt.h"
#include <pthread.h>

static const int MAXT = 48;
static const size_t STREAM_CAP = 1u << 16;
static const int NPROBE = 256;

struct SimProbe
{
    char name[48];
    uint64_t n;
};

struct SimResult // in memory shared between the server and the forked run
{
    volatile int done; // 1: scenario finished, 2: violation, 3: internal error
    char cls[96];
    char msg[4096];
    char trace[4096]; // backtrace addresses as text
    uint64_t hash, syncHash, steps, switches, events, simNs;
    uint32_t len[ST_COUNT];
    uint64_t faults;
    uint32_t overflow;
    uint32_t noteLen;
    uint32_t data[ST_COUNT][STREAM_CAP];
    char notes[1u << 18];
};

struct SimShared
{
    SimProbe probe[NPROBE]; // accumulates over all runs of a server
    SimResult res;
};

extern SimShared * g_sh;
extern bool g_simActive; // this process is a simulated run

struct Thr;
extern __thread Thr * t_self;
bool sim_self_active(); // current code is simulated (not runtime, not server)
int & sim_inrt_dummy();

#define RT_HIDDEN __attribute__( ( visibility( "hidden" ) ) )

// memory access checks (heap validity, races) for whole ranges
void rt_access( const void * p, size_t n, bool write, bool atomicAcc, const char * what );
void rt_event( int kind ); // 0 plain access, 1 synchronisation, 2 shared access
bool rt_faults_on();
void rt_die( int done, const char * cls, const char * fmt, ... ) __attribute__( ( noreturn ) );
void * rt_real( const char * name );
void rt_hash( uint64_t a, uint64_t b );
void rt_order( uint64_t what, uint64_t n );
int rt_vsnprintf( char * buf, size_t n, const char * fmt, va_list ap );
void rt_enter();
void rt_leave();

// code of a simulated device is running: all its accesses to memory are given to this function only
extern void ( *g_accessHook )( uintptr_t a, size_t n, bool write );
extern uintptr_t g_forbiddenLo, g_forbiddenSize; // memory which only simulated devices may use

// disk
void disk_init_run();
// driver
void cl_init_server();
