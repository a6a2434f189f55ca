// SimRT: deterministic simulation runtime. Public interface used by scenarios and by the other simulated components.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>

enum SimStream
{
    ST_OPS = 0, // workload choices
    ST_FORCED, // which thread continues when the running one blocks, which waiter is signalled
    ST_PREEMPT, // (gap, target) pairs: voluntary context switches
    ST_ALLOC, // allocation failures (gaps)
    ST_THREAD, // thread creation failures (gaps)
    ST_SPUR, // spurious wakeups, early clock advance
    ST_DISK, // storage faults
    ST_CL, // OpenCL runtime faults
    ST_MISC, // anything else
    ST_COUNT
};

extern "C" {
// --- choices
uint32_t sim_choose( uint32_t n ); // workload choice in [0,n)
uint32_t sim_draw( int stream, uint32_t n ); // choice in [0,n) from a given stream; 0 is the simplest
bool sim_chance( int stream, uint32_t num, uint32_t den ); // true with probability num/den; false is the simplest
// --- failure reporting and logging
[[noreturn]] void sim_fail( const char * cls, const char * fmt, ... ) __attribute__( ( format( printf, 2, 3 ) ) );
void sim_event( const char * tag, uint64_t a, uint64_t b );
void sim_note( const char * fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) ); // human readable trace line (only kept in replay)
void sim_count( const char * name, uint64_t n );
uint64_t sim_now(); // number of events so far
// --- fault regions
void sim_sut( int delta ); // allocations inside are subject to failure and leak accounting
void sim_alloc_faults( uint32_t meanGap ); // 0: off; otherwise about one in meanGap allocations fails
void sim_alloc_fail_at( uint32_t k ); // exactly the k-th (1-based) eligible allocation from now fails; 0: none
uint64_t sim_alloc_seen(); // eligible allocations since start
uint64_t sim_alloc_failed(); // injected failures so far
void sim_thread_faults( uint32_t oneIn ); // pthread_create fails about once in oneIn; 0: off
uint64_t sim_thread_failed();
void sim_faults_stop(); // no fault of any kind from now on
uint64_t sim_live_blocks( uint64_t sinceSerial, char * buf, size_t n ); // live blocks allocated inside SUT regions after serial
uint64_t sim_alloc_serial();
bool sim_block_of( const void * p, uintptr_t * base, size_t * size ); // the live heap block which contains p
bool sim_heap_valid( const void * p, size_t n );
void sim_heap_check(); // verify all red zones
void sim_fill_pattern( int v ); // byte used to fill fresh memory; -1: default
void sim_mem_limit( size_t maxSingle ); // larger single requests are refused
// --- checked user accesses (happens-before relevant)
void sim_read( const void * p, size_t n );
void sim_write( const void * p, size_t n );
// --- scheduling
void sim_quiesce_fair(); // from now on: fair schedule, no faults
void sim_sync_point( const char * tag, const void * obj ); // a schedule point with preemption preference
int sim_tid();
int sim_thread_count_live(); // sim threads not yet finished
int sim_threads_blocked();
void sim_step_budget( uint64_t unfair, uint64_t fair );
void sim_race_detect( bool on );
void sim_hb_acquire( const void * o );
void sim_hb_release( const void * o );
void sim_object_destroyed( const void * p, size_t n, const char * name ); // an object with static storage duration must not be used any more
void sim_at_end( void ( *fn )() ); // to be executed after all handlers of the process exit
[[noreturn]] void sim_exit_normally(); // run the process exit handlers under simulation, then end the run
// executes fn in a forked copy of this process, which must not have other simulated threads yet: what it computes is not influenced by and does not
// influence anything else in this run. Returns the number of bytes fn wrote into out or -1 if it did not end normally
long sim_solo( size_t ( *fn )( void * arg, char * out, size_t cap ), void * arg, char * out, size_t cap );
void sim_rt_enter(); // code in between is invisible for the simulation (no events, own allocations not accounted)
void sim_rt_leave();
}

struct SimSut
{
    SimSut() { sim_sut( 1 ); }
    ~SimSut() { sim_sut( -1 ); }
};
struct SimRt
{
    SimRt() { sim_rt_enter(); }
    ~SimRt() { sim_rt_leave(); }
};

// scenario registration
typedef void ( *SimScenarioFn )();
struct SimScenario
{
    const char * name;
    SimScenarioFn fn;
    SimScenarioFn warm; // executed once in the parent before any run; may be null
    SimScenario * next;
    SimScenario( const char * n, SimScenarioFn f, SimScenarioFn w = nullptr );
};
