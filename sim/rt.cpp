// SimRT: scheduler, race detector, heap, simulated clock, choice streams and the fork server.
// This file is compiled without instrumentation and without STL so that it shares no code with the system under test.
#include "rt_int.h"
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

// ------------------------------------------------------------------------------------------------ layout
static const uintptr_t ARENA = 0x200000000000ull;
static const size_t ARENA_SZ = 1ull << 30;
static const uintptr_t ASHADOW = 0x210000000000ull; // 1 byte per 8 bytes of arena
static const uintptr_t STACKS = 0x220000000000ull;
static const size_t STACK_SZ = 1ull << 20;
static const uintptr_t RSHADOW_HEAP = 0x230000000000ull; // 8 bytes per byte
static const uintptr_t RSHADOW_STACK = 0x240000000000ull;
static const uintptr_t RSHADOW_GLOB = 0x250000000000ull;
static const uintptr_t PRIV = 0x260000000000ull; // runtime private memory
extern "C" char __data_start, _end;

static void * map_at( uintptr_t at, size_t n )
{
    void * p = mmap( reinterpret_cast<void *>( at ), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0 );
    if ( p != reinterpret_cast<void *>( at ) ) {
        static const char m[] = "simrt: cannot map memory\n";
        (void)!write( 2, m, sizeof m - 1 );
        _exit( 70 );
    }
    return p;
}

// ------------------------------------------------------------------------------------------------ state
enum State
{
    S_FREE,
    S_RUN,
    S_MUTEX,
    S_COND,
    S_JOIN,
    S_SLEEP,
    S_FUTEX,
    S_SEM,
    S_RW,
    S_GUARD,
    S_BARRIER,
    S_DONE
};
static const char * const stateName[]
    = { "free", "runnable", "locking a mutex", "waiting on a condition variable", "joining a thread", "sleeping", "futex", "semaphore", "rwlock", "static init", "barrier", "done" };

struct Thr
{
    int id;
    int baton;
    int state;
    const void * wait;
    const void * wait2;
    uint64_t deadline; // 0: none
    bool timedOut;
    bool woken;
    int inRt;
    int sut;
    int prio;
    bool detached, joined, finishing;
    pthread_t real;
    void * ( *fn )( void * );
    void * arg;
    void * ret;
    uint64_t order; // FIFO of waiting
    bool hasAcqF, hasRelF;
    uint32_t vc[MAXT];
    uint32_t acqF[MAXT];
    uint32_t relF[MAXT];
};

SimShared * g_sh;
bool g_simActive = false;
void ( *g_accessHook )( uintptr_t, size_t, bool ) = nullptr;
uintptr_t g_forbiddenLo = 0, g_forbiddenSize = 0;
__thread Thr * t_self __attribute__( ( tls_model( "initial-exec" ) ) );

static Thr thr[MAXT];
static int nthr = 0;
static uint64_t steps, lastPreempt, switches, waitOrder, simNs;
static bool raceOn = true;
static bool faultsStopped = false;
static bool fairMode = false;
static uint64_t unfairBudget = 3000000, fairBudget = 3000000, fairStart = 0;
static uint64_t hashAll, hashSync, nEvents;
static bool keepNotes = false;

// choice streams
static bool replayMode = false;
static uint32_t rlen[ST_COUNT];
static uint32_t rpos[ST_COUNT];
static uint32_t * rdata[ST_COUNT];
static uint64_t rngS[ST_COUNT];
static uint64_t rngStrat;

static inline uint64_t mix64( uint64_t z )
{
    z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull;
    z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull;
    return z ^ ( z >> 31 );
}
static inline uint64_t rnd( uint64_t & s )
{
    s += 0x9e3779b97f4a7c15ull;
    return mix64( s );
}

void rt_hash( uint64_t a, uint64_t b )
{
    hashAll = mix64( hashAll ^ ( a * 0x9e3779b97f4a7c15ull ) ^ mix64( b + 0x1234567 ) );
}

// choices of an order which is not one of threads (of the work items of a device)
void rt_order( uint64_t what, uint64_t n )
{
    hashSync = mix64( hashSync ^ what ^ mix64( n ) );
    switches += n;
}

void rt_enter()
{
    if ( t_self )
        ++t_self->inRt;
}
void rt_leave()
{
    if ( t_self )
        --t_self->inRt;
}
extern "C" void sim_rt_enter() { rt_enter(); }
extern "C" void sim_rt_leave() { rt_leave(); }
struct RtGuard
{
    RtGuard() { rt_enter(); }
    ~RtGuard() { rt_leave(); }
};

bool sim_self_active() { return g_simActive && t_self && t_self->inRt == 0; }
bool rt_faults_on() { return !faultsStopped; }

// ------------------------------------------------------------------------------------------------ real functions
void * rt_real( const char * name )
{
    void * p = dlsym( RTLD_NEXT, name );
    if ( !p ) {
        fprintf( stderr, "simrt: no %s\n", name );
        _exit( 71 );
    }
    return p;
}
static int ( *real_create )( pthread_t *, const pthread_attr_t *, void * ( * )( void * ), void * );
static int ( *real_join )( pthread_t, void ** );
static int ( *real_clock_gettime )( clockid_t, struct timespec * );
static void ( *real_exit )( int );

// ------------------------------------------------------------------------------------------------ results
static void write_bt( char * out, size_t cap )
{
    void * a[40];
    int n = backtrace( a, 40 );
    size_t k = 0;
    for ( int i = 2; i < n && k + 20 < cap; ++i )
        k += static_cast<size_t>( snprintf( out + k, cap - k, "%lx ", reinterpret_cast<unsigned long>( a[i] ) ) );
}

static void finish( int done )
{
    SimResult & r = g_sh->res;
    r.hash = hashAll;
    r.syncHash = hashSync;
    r.steps = steps;
    r.switches = switches;
    r.events = nEvents;
    r.simNs = simNs;
    __atomic_store_n( &r.done, done, __ATOMIC_SEQ_CST );
}

void rt_die( int done, const char * cls, const char * fmt, ... )
{
    if ( t_self )
        t_self->inRt = 1000;
    SimResult & r = g_sh->res;
    if ( r.done == 0 ) {
        snprintf( r.cls, sizeof r.cls, "%s", cls );
        va_list ap;
        va_start( ap, fmt );
        int k = vsnprintf( r.msg, sizeof r.msg, fmt, ap );
        va_end( ap );
        if ( k < 0 )
            k = 0;
        if ( static_cast<size_t>( k ) >= sizeof r.msg )
            k = sizeof r.msg - 1;
        for ( int i = 0; i < nthr; ++i ) {
            if ( static_cast<size_t>( k ) + 100 > sizeof r.msg )
                break;
            k += snprintf( r.msg + k, sizeof r.msg - static_cast<size_t>( k ), "\n  thread %d%s: %s", i, t_self == &thr[i] ? " (running)" : "", stateName[thr[i].state] );
        }
        rt_hash( 0xdead, static_cast<uint64_t>( steps ) );
        for ( const char * p = cls; *p; ++p )
            rt_hash( 0xdeae, static_cast<uint64_t>( *p ) );
        write_bt( r.trace, sizeof r.trace );
        finish( done );
    }
    _exit( 9 );
}

extern "C" void sim_fail( const char * cls, const char * fmt, ... )
{
    char b[2048];
    rt_enter();
    va_list ap;
    va_start( ap, fmt );
    vsnprintf( b, sizeof b, fmt, ap );
    va_end( ap );
    rt_die( 2, cls, "%s", b );
}

extern "C" void sim_event( const char * tag, uint64_t a, uint64_t b )
{
    ++nEvents;
    uint64_t h = 0;
    for ( const char * p = tag; *p; ++p )
        h = h * 131 + static_cast<unsigned char>( *p );
    rt_hash( h + ( t_self ? static_cast<uint64_t>( t_self->id ) << 56 : 0 ), a * 0x9e3779b97f4a7c15ull + b );
    hashSync = mix64( hashSync ^ h ^ a * 31 ^ b * 17 ^ ( t_self ? static_cast<uint64_t>( t_self->id ) << 48 : 0 ) );
    if ( keepNotes )
        sim_note( "%s %llu %llu", tag, static_cast<unsigned long long>( a ), static_cast<unsigned long long>( b ) );
}

extern "C" void sim_note( const char * fmt, ... )
{
    if ( !keepNotes || !g_simActive )
        return;
    RtGuard g;
    SimResult & r = g_sh->res;
    if ( r.noteLen + 600 > sizeof r.notes )
        return;
    int k = snprintf( r.notes + r.noteLen, 64, "[%llu t%d] ", static_cast<unsigned long long>( steps ), t_self ? t_self->id : -1 );
    r.noteLen += static_cast<uint32_t>( k );
    va_list ap;
    va_start( ap, fmt );
    k = vsnprintf( r.notes + r.noteLen, 500, fmt, ap );
    va_end( ap );
    if ( k > 499 )
        k = 499;
    r.noteLen += static_cast<uint32_t>( k );
    r.notes[r.noteLen++] = '\n';
}

extern "C" void sim_count( const char * name, uint64_t n )
{
    if ( !g_simActive )
        return;
    if ( name[0] == 'f' && name[1] == 'a' && name[2] == 'u' && name[3] == 'l' && name[4] == 't' && name[5] == '.' )
        g_sh->res.faults += n;
    for ( int i = 0; i < NPROBE; ++i ) {
        SimProbe & p = g_sh->probe[i];
        if ( p.name[0] == 0 )
            strncpy( p.name, name, sizeof p.name - 1 );
        if ( strncmp( p.name, name, sizeof p.name - 1 ) == 0 ) {
            p.n += n;
            return;
        }
    }
}

extern "C" uint64_t sim_now() { return steps; }

// ------------------------------------------------------------------------------------------------ choices
static void record( int s, uint32_t v )
{
    SimResult & r = g_sh->res;
    if ( r.len[s] < STREAM_CAP )
        r.data[s][r.len[s]++] = v;
    else
        r.overflow = 1;
}

static uint32_t next_replay( int s )
{
    return rpos[s] < rlen[s] ? rdata[s][rpos[s]++] : 0;
}

extern "C" uint32_t sim_draw( int s, uint32_t n )
{
    if ( n <= 1 || !g_simActive )
        return 0;
    if ( faultsStopped && s != ST_OPS && s != ST_FORCED && s != ST_MISC )
        return 0;
    uint32_t v;
    if ( replayMode )
        v = next_replay( s ) % n;
    else
        v = g_sh->res.len[s] < STREAM_CAP ? static_cast<uint32_t>( rnd( rngS[s] ) % n ) : 0;
    record( s, v );
    return v;
}

extern "C" uint32_t sim_choose( uint32_t n ) { return sim_draw( ST_OPS, n ); }

extern "C" bool sim_chance( int s, uint32_t num, uint32_t den )
{
    if ( num == 0 || !g_simActive )
        return false;
    if ( faultsStopped && s != ST_OPS && s != ST_MISC )
        return false;
    uint32_t v;
    if ( replayMode )
        v = next_replay( s ) ? 1 : 0;
    else
        v = g_sh->res.len[s] < STREAM_CAP ? ( rnd( rngS[s] ) % den < num ? 1 : 0 ) : 0;
    record( s, v );
    return v != 0;
}

static uint64_t draw_gap( int s, uint32_t mean ) // 0: never
{
    uint32_t v;
    if ( replayMode )
        v = next_replay( s );
    else {
        if ( rnd( rngS[s] ) % 8 == 0 )
            v = 0;
        else
            v = 1 + static_cast<uint32_t>( rnd( rngS[s] ) % ( 2ull * mean ) );
    }
    record( s, v );
    return v;
}

// ------------------------------------------------------------------------------------------------ heap
struct Hdr
{
    uint64_t magic;
    uint64_t size;
    uint64_t serial;
    uint32_t flags; // 1 live, 2 runtime, 4 sut
    uint32_t total; // bytes from block start (aligned slot) to the next slot
};
static const uint64_t MAGIC = 0x51b10c5ed00dfeedull;
static uintptr_t arenaTop = ARENA;
static uint64_t serialNo;
static int fillByte = -1;
static size_t maxSingle = 64u << 20;
static uint32_t allocMean = 0;
static uint64_t allocGap = 0, allocSeen = 0, allocFailed = 0, allocFailAt = 0;
static uint32_t threadMean = 0;
static uint64_t threadGap = 0, threadFailed = 0;
static bool arenaReady = false;

static inline unsigned char * ash( uintptr_t a ) { return reinterpret_cast<unsigned char *>( ASHADOW + ( a - ARENA ) / 8 ); }
static inline bool inArena( uintptr_t a ) { return a - ARENA < ARENA_SZ; }

static inline void bfill( void * p, int v, size_t n ) { __asm__ volatile( "rep stosb" : "+D"( p ), "+c"( n ) : "a"( v ) : "memory" ); }
static inline void bcopy_( void * d, const void * s, size_t n ) { __asm__ volatile( "rep movsb" : "+D"( d ), "+S"( s ), "+c"( n ) : : "memory" ); }

static void arena_init()
{
    if ( arenaReady )
        return;
    arenaReady = true;
    map_at( ARENA, ARENA_SZ );
    map_at( ASHADOW, ARENA_SZ / 8 );
}

// slots: [Hdr at u-32-? .. ][user][redzone]; slots are walked through a side list of header addresses
static const size_t MAXBLK = 1u << 20;
static uintptr_t * blkList; // user addresses in allocation order
static size_t nblk;

static void * heap_alloc( size_t n, size_t align )
{
    arena_init();
    if ( !blkList )
        blkList = static_cast<uintptr_t *>( map_at( PRIV, MAXBLK * sizeof( uintptr_t ) ) );
    if ( align < 16 )
        align = 16;
    uintptr_t u = ( arenaTop + sizeof( Hdr ) + 16 + align - 1 ) & ~( align - 1 );
    uintptr_t end = u + n;
    uintptr_t next = ( end + 32 + 15 ) & ~static_cast<uintptr_t>( 15 );
    if ( n > ARENA_SZ || next > ARENA + ARENA_SZ || nblk >= MAXBLK )
        return nullptr;
    Hdr * h = reinterpret_cast<Hdr *>( u - sizeof( Hdr ) );
    h->magic = MAGIC;
    h->size = n;
    h->serial = ++serialNo;
    h->flags = 1;
    h->total = 0;
    // shadow: slot is poisoned (0xFA) around the user part
    bfill( ash( arenaTop & ~7ull ), 0xFA, ( next - ( arenaTop & ~7ull ) ) / 8 );
    bfill( ash( u ), 8, n / 8 );
    if ( n % 8 )
        *ash( u + n ) = static_cast<unsigned char>( n % 8 );
    bfill( reinterpret_cast<void *>( end ), 0xFB, next - end );
    arenaTop = next;
    blkList[nblk++] = u;
    return reinterpret_cast<void *>( u );
}

static inline Hdr * hdr( void * p ) { return reinterpret_cast<Hdr *>( reinterpret_cast<uintptr_t>( p ) - sizeof( Hdr ) ); }

static void check_redzone( void * p, Hdr * h )
{
    const unsigned char * e = static_cast<unsigned char *>( p ) + h->size;
    for ( int i = 0; i < 32; ++i )
        if ( e[i] != 0xFB )
            rt_die( 2, "heap-overflow", "write beyond the end of a block of %zu bytes (offset +%d)", static_cast<size_t>( h->size ), i );
}

extern "C" void sim_heap_check()
{
    RtGuard g;
    for ( size_t i = 0; i < nblk; ++i ) {
        void * p = reinterpret_cast<void *>( blkList[i] );
        Hdr * h = hdr( p );
        if ( h->magic != MAGIC )
            rt_die( 2, "heap-overflow", "heap block header overwritten" );
        if ( h->flags & 1 )
            check_redzone( p, h );
    }
}

extern "C" uint64_t sim_alloc_serial() { return serialNo; }
extern "C" uint64_t sim_live_blocks( uint64_t since, char * buf, size_t cap )
{
    uint64_t n = 0;
    size_t k = 0;
    if ( buf && cap )
        buf[0] = 0;
    for ( size_t i = nblk; i-- > 0; ) {
        Hdr * h = hdr( reinterpret_cast<void *>( blkList[i] ) );
        if ( h->serial <= since )
            break;
        if ( ( h->flags & 5 ) == 5 ) {
            ++n;
            if ( buf && k + 40 < cap ) {
                rt_enter();
                k += static_cast<size_t>( snprintf( buf + k, cap - k, " %llu bytes (#%llu)", static_cast<unsigned long long>( h->size ), static_cast<unsigned long long>( h->serial ) ) );
                rt_leave();
            }
        }
    }
    return n;
}

extern "C" void sim_sut( int d )
{
    if ( t_self )
        t_self->sut += d;
}
extern "C" void sim_alloc_faults( uint32_t mean )
{
    allocMean = mean;
    allocGap = mean ? draw_gap( ST_ALLOC, mean ) : 0;
}
extern "C" void sim_alloc_fail_at( uint32_t k ) { allocFailAt = k ? allocSeen + k : 0; }
extern "C" uint64_t sim_alloc_seen() { return allocSeen; }
extern "C" uint64_t sim_alloc_failed() { return allocFailed; }
extern "C" void sim_thread_faults( uint32_t oneIn )
{
    threadMean = oneIn;
    threadGap = oneIn ? draw_gap( ST_THREAD, oneIn ) : 0;
}
extern "C" uint64_t sim_thread_failed() { return threadFailed; }
extern "C" void sim_faults_stop() { faultsStopped = true; }
extern "C" void sim_fill_pattern( int v ) { fillByte = v; }
extern "C" void sim_mem_limit( size_t m ) { maxSingle = m; }

extern "C" bool sim_block_of( const void * p, uintptr_t * base, size_t * size )
{
    const uintptr_t a = reinterpret_cast<uintptr_t>( p );
    size_t lo = 0, hi = nblk; // the list is ordered by address
    while ( lo < hi ) {
        const size_t m = ( lo + hi ) / 2;
        if ( blkList[m] <= a )
            lo = m + 1;
        else
            hi = m;
    }
    if ( !lo )
        return false;
    Hdr * h = hdr( reinterpret_cast<void *>( blkList[lo - 1] ) );
    if ( !( h->flags & 1 ) || a - blkList[lo - 1] >= ( h->size ? h->size : 1 ) )
        return false;
    *base = blkList[lo - 1];
    *size = h->size;
    return true;
}

extern "C" bool sim_heap_valid( const void * p, size_t n )
{
    uintptr_t a = reinterpret_cast<uintptr_t>( p );
    if ( !inArena( a ) )
        return true;
    while ( n > 0 ) {
        if ( !inArena( a ) )
            return true;
        unsigned char s = *ash( a );
        size_t off = a & 7;
        size_t m = 8 - off < n ? 8 - off : n;
        if ( s == 0 || s > 8 || off + m > s )
            return false;
        a += m;
        n -= m;
    }
    return true;
}

static void heap_bad( uintptr_t a, size_t n, bool wr, const char * what )
{
    // find the offending byte and its block
    while ( n > 1 && sim_heap_valid( reinterpret_cast<void *>( a ), 1 ) ) {
        ++a;
        --n;
    }
    unsigned char s = *ash( a );
    size_t best = nblk;
    for ( size_t i = 0; i < nblk; ++i )
        if ( blkList[i] <= a )
            best = i;
        else
            break;
    char where[160] = "";
    bool freed = s == 0xFD;
    if ( best < nblk ) {
        Hdr * h = hdr( reinterpret_cast<void *>( blkList[best] ) );
        long off = static_cast<long>( a - blkList[best] );
        snprintf( where, sizeof where, " at offset %ld of a %sblock of %llu bytes", off, freed ? "freed " : "", static_cast<unsigned long long>( h->size ) );
    }
    rt_die( 2, freed ? "use-after-free" : "out-of-bounds", "%s of %s memory%s%s%s", wr ? "write" : "read", freed ? "freed" : "unallocated", where, what ? " in " : "", what ? what : "" );
}

static void * do_malloc( size_t n, size_t align )
{
    Thr * t = t_self;
    const bool simd = g_simActive && t && t->inRt == 0;
    if ( simd && t->sut > 0 ) {
        ++allocSeen;
        if ( n > maxSingle ) {
            sim_count( "fault.huge_alloc_refused", 1 );
            ++allocFailed;
            errno = ENOMEM;
            return nullptr;
        }
        if ( !faultsStopped ) {
            bool fail = allocFailAt && allocSeen == allocFailAt;
            if ( allocGap && --allocGap == 0 ) {
                fail = true;
                allocGap = allocMean ? draw_gap( ST_ALLOC, allocMean ) : 0;
            }
            if ( fail ) {
                ++allocFailed;
                sim_count( "fault.alloc", 1 );
                sim_event( "fault.alloc", allocSeen, n );
                errno = ENOMEM;
                return nullptr;
            }
        }
    }
    void * p = heap_alloc( n, align );
    if ( !p ) {
        errno = ENOMEM;
        return nullptr;
    }
    Hdr * h = hdr( p );
    if ( simd ) {
        h->flags |= t->sut > 0 ? 4u : 0u;
        bfill( p, fillByte >= 0 ? fillByte : 0xCD, n );
    }
    else if ( t || !g_simActive )
        h->flags |= 2u;
    return p;
}

static void free_race_check( void * p, size_t n );
static void free_sync_check( void * p, size_t n );

static void do_free( void * p )
{
    if ( !p )
        return;
    uintptr_t a = reinterpret_cast<uintptr_t>( p );
    if ( !inArena( a ) )
        return;
    if ( g_simActive && ( !t_self || t_self->state == S_DONE ) )
        return; // a real thread on its way out
    if ( !g_simActive )
        return; // server process: never reuse
    const bool simd = t_self->inRt == 0;
    Hdr * h = hdr( p );
    if ( ( a & 15 ) || h->magic != MAGIC ) {
        if ( simd )
            rt_die( 2, "bad-free", "free of a pointer that was not allocated" );
        return;
    }
    if ( !( h->flags & 1 ) ) {
        if ( simd )
            rt_die( 2, "double-free", "block of %llu bytes freed twice", static_cast<unsigned long long>( h->size ) );
        return;
    }
    if ( !simd && ( h->flags & 2 ) )
        return;
    check_redzone( p, h );
    if ( simd ) {
        free_race_check( p, h->size );
        free_sync_check( p, h->size );
    }
    h->flags &= ~1u;
    bfill( ash( a ), 0xFD, ( h->size + 7 ) / 8 );
    bfill( p, 0xDD, h->size );
}

extern "C" {
void * malloc( size_t n ) { return do_malloc( n, 16 ); }
void free( void * p ) { do_free( p ); }
void * calloc( size_t a, size_t b )
{
    size_t n;
    if ( __builtin_mul_overflow( a, b, &n ) ) {
        errno = ENOMEM;
        return nullptr;
    }
    void * p = do_malloc( n, 16 );
    if ( p )
        bfill( p, 0, n );
    return p;
}
void * realloc( void * p, size_t n )
{
    if ( !p )
        return do_malloc( n, 16 );
    if ( n == 0 ) {
        do_free( p );
        return nullptr;
    }
    void * q = do_malloc( n, 16 );
    if ( !q )
        return nullptr;
    size_t m = hdr( p )->size < n ? hdr( p )->size : n;
    bcopy_( q, p, m );
    do_free( p );
    return q;
}
void * memalign( size_t al, size_t n ) { return do_malloc( n, al ); }
void * aligned_alloc( size_t al, size_t n ) { return do_malloc( n, al ); }
int posix_memalign( void ** r, size_t al, size_t n )
{
    void * p = do_malloc( n, al );
    if ( !p )
        return ENOMEM;
    *r = p;
    return 0;
}
void * valloc( size_t n ) { return do_malloc( n, 4096 ); }
size_t malloc_usable_size( void * p ) { return p ? hdr( p )->size : 0; }
}

// ------------------------------------------------------------------------------------------------ happens-before
struct Cell
{
    uint32_t w, r;
};
static const uint32_t RVEC = 0xFF000000u;
static uint32_t ( *rvec )[MAXT];
static uint32_t nrvec = 1;
static const uint32_t MAXRVEC = 1u << 18;
static uintptr_t globLo, globHi;
static bool shadowMapped = false;

static inline Cell * cell( uintptr_t a )
{
    if ( a - ARENA < ARENA_SZ )
        return reinterpret_cast<Cell *>( RSHADOW_HEAP + ( a - ARENA ) * 8 );
    if ( a - STACKS < STACK_SZ * MAXT )
        return reinterpret_cast<Cell *>( RSHADOW_STACK + ( a - STACKS ) * 8 );
    if ( a >= globLo && a < globHi )
        return reinterpret_cast<Cell *>( RSHADOW_GLOB + ( a - globLo ) * 8 );
    return nullptr;
}

static void map_shadow()
{
    if ( shadowMapped )
        return;
    shadowMapped = true;
    globLo = reinterpret_cast<uintptr_t>( &__data_start ) & ~7ull;
    globHi = reinterpret_cast<uintptr_t>( &_end );
    map_at( RSHADOW_HEAP, ARENA_SZ * 8 );
    map_at( RSHADOW_STACK, STACK_SZ * MAXT * 8 );
    map_at( RSHADOW_GLOB, ( globHi - globLo + 4096 ) * 8 & ~4095ull );
    rvec = static_cast<uint32_t( * )[MAXT]>( map_at( PRIV + 0x10000000ull, MAXRVEC * sizeof( *rvec ) ) );
}

static inline uint32_t epochOf( const Thr * t ) { return ( static_cast<uint32_t>( t->id ) << 24 ) | t->vc[t->id]; }
static inline bool le( uint32_t e, const Thr * t ) { return ( e & 0xFFFFFFu ) <= t->vc[e >> 24]; }

static void describe_addr( uintptr_t a, char * out, size_t n )
{
    if ( inArena( a ) ) {
        for ( size_t i = nblk; i-- > 0; )
            if ( blkList[i] <= a ) {
                Hdr * h = hdr( reinterpret_cast<void *>( blkList[i] ) );
                snprintf( out, n, "offset %zu of a heap block of %llu bytes", static_cast<size_t>( a - blkList[i] ), static_cast<unsigned long long>( h->size ) );
                return;
            }
    }
    if ( a - STACKS < STACK_SZ * MAXT ) {
        snprintf( out, n, "stack of thread %d", static_cast<int>( ( a - STACKS ) / STACK_SZ ) );
        return;
    }
    snprintf( out, n, "global 0x%lx", static_cast<unsigned long>( a ) );
}

static void race( uintptr_t a, const char * now, const char * before, int other )
{
    char d[128];
    describe_addr( a, d, sizeof d );
    rt_die( 2, "data-race", "%s by thread %d is not ordered after %s by thread %d (%s)", now, t_self->id, before, other, d );
}

static bool race_range( uintptr_t a, size_t n, bool wr, bool atom )
{
    bool shared = false;
    Thr * t = t_self;
    const uint32_t e = epochOf( t );
    Cell * c = cell( a );
    if ( !c )
        return false;
    for ( size_t i = 0; i < n; ++i, ++c ) {
        if ( atom ) {
            if ( c->w && !le( c->w, t ) )
                race( a + i, wr ? "atomic write" : "atomic read", "a plain write", static_cast<int>( c->w >> 24 ) );
            shared = true;
            continue;
        }
        if ( wr ) {
            if ( c->w == e && ( c->r == 0 || c->r == e ) )
                continue;
            if ( c->w && ( c->w >> 24 ) != static_cast<uint32_t>( t->id ) ) {
                shared = true;
                if ( !le( c->w, t ) )
                    race( a + i, "write", "a write", static_cast<int>( c->w >> 24 ) );
            }
            if ( c->r ) {
                if ( c->r >= RVEC ) {
                    uint32_t * v = rvec[c->r - RVEC];
                    shared = true;
                    for ( int k = 0; k < nthr; ++k )
                        if ( v[k] > t->vc[k] )
                            race( a + i, "write", "a read", k );
                }
                else if ( !le( c->r, t ) )
                    race( a + i, "write", "a read", static_cast<int>( c->r >> 24 ) );
            }
            c->w = e;
            c->r = 0;
        }
        else {
            if ( c->r == e )
                continue;
            if ( c->w && ( c->w >> 24 ) != static_cast<uint32_t>( t->id ) ) {
                shared = true;
                if ( !le( c->w, t ) )
                    race( a + i, "read", "a write", static_cast<int>( c->w >> 24 ) );
            }
            if ( c->r >= RVEC ) {
                rvec[c->r - RVEC][t->id] = t->vc[t->id];
                shared = true;
            }
            else if ( c->r == 0 || le( c->r, t ) )
                c->r = e;
            else if ( nrvec < MAXRVEC && nrvec < 0xFFFFFFu ) {
                uint32_t * v = rvec[nrvec];
                v[c->r >> 24] = c->r & 0xFFFFFFu;
                v[t->id] = t->vc[t->id];
                c->r = RVEC + nrvec++;
                shared = true;
            }
        }
    }
    return shared;
}

static void free_race_check( void * p, size_t n )
{
    if ( !raceOn || nthr <= 1 || !shadowMapped )
        return;
    Thr * t = t_self;
    Cell * c = cell( reinterpret_cast<uintptr_t>( p ) );
    for ( size_t i = 0; i < n; ++i, ++c ) {
        if ( c->w && !le( c->w, t ) )
            rt_die( 2, "data-race", "memory freed by thread %d is not ordered after a write by thread %d (offset %zu of %zu)", t->id, static_cast<int>( c->w >> 24 ), i, n );
        if ( c->r >= RVEC ) {
            uint32_t * v = rvec[c->r - RVEC];
            for ( int k = 0; k < nthr; ++k )
                if ( v[k] > t->vc[k] )
                    rt_die( 2, "data-race", "memory freed by thread %d is not ordered after a read by thread %d (offset %zu of %zu)", t->id, k, i, n );
        }
        else if ( c->r && !le( c->r, t ) )
            rt_die( 2, "data-race", "memory freed by thread %d is not ordered after a read by thread %d (offset %zu of %zu)", t->id, static_cast<int>( c->r >> 24 ), i, n );
    }
}

struct Sync
{
    uintptr_t addr;
    uint32_t vc[MAXT];
};
static const uint32_t NSYNC = 1u << 15;
static Sync * syncTab;

static uint32_t * sync_vc( const void * o )
{
    if ( !syncTab )
        syncTab = static_cast<Sync *>( map_at( PRIV + 0x20000000ull, NSYNC * sizeof( Sync ) ) );
    uintptr_t a = reinterpret_cast<uintptr_t>( o );
    uint32_t i = static_cast<uint32_t>( mix64( a ) ) & ( NSYNC - 1 );
    for ( uint32_t k = 0; k < NSYNC; ++k, i = ( i + 1 ) & ( NSYNC - 1 ) ) {
        if ( syncTab[i].addr == a )
            return syncTab[i].vc;
        if ( syncTab[i].addr == 0 ) {
            syncTab[i].addr = a;
            return syncTab[i].vc;
        }
    }
    rt_die( 3, "sim-limit", "too many synchronisation objects" );
}
static inline void vjoin( uint32_t * a, const uint32_t * b )
{
    for ( int i = 0; i < nthr; ++i )
        if ( b[i] > a[i] )
            a[i] = b[i];
}
static inline void vset( uint32_t * a, const uint32_t * b )
{
    for ( int i = 0; i < MAXT; ++i )
        a[i] = b[i];
}
static inline void tick( Thr * t ) { ++t->vc[t->id]; }
static void hb_acq( const void * o ) { vjoin( t_self->vc, sync_vc( o ) ); }
static void hb_rel( const void * o )
{
    vjoin( sync_vc( o ), t_self->vc );
    tick( t_self );
}
extern "C" void sim_hb_acquire( const void * o ) { hb_acq( o ); }
extern "C" void sim_hb_release( const void * o ) { hb_rel( o ); }
extern "C" void sim_race_detect( bool on ) { raceOn = on; }

// ------------------------------------------------------------------------------------------------ scheduler
enum Strategy
{
    STR_NONE, // switch only when blocked
    STR_WALK, // every event with probability 1/p
    STR_SYNC, // every synchronisation event with probability 1/p
    STR_SHARED, // every access to memory another thread has touched, and every synchronisation, with probability 1/p
    STR_PCT, // priorities with change points
    STR_STALL, // STR_SHARED with one thread held back for long
    STR_COUNT
};
static int strategy = STR_NONE;
static uint32_t stratP = 10;
static uint64_t nextAt = UINT64_MAX; // event number of the next voluntary switch (WALK, replay)
static uint64_t pctPoint[8];
static int pctN = 0, pctNext = 0;
static int stallVictim = -1;
static uint64_t stallFrom = 0, stallTo = 0;

static int runnable( int * out, const Thr * except )
{
    int n = 0;
    for ( int i = 0; i < nthr; ++i )
        if ( thr[i].state == S_RUN && &thr[i] != except )
            out[n++] = i;
    return n;
}

static long raw_futex( int * p, int op, int v )
{
    long r;
    register long r10 __asm__( "r10" ) = 0;
    register long r8 __asm__( "r8" ) = 0;
    register long r9 __asm__( "r9" ) = 0;
    __asm__ volatile( "syscall" : "=a"( r ) : "a"( static_cast<long>( SYS_futex ) ), "D"( p ), "S"( static_cast<long>( op ) ), "d"( static_cast<long>( v ) ), "r"( r10 ), "r"( r8 ), "r"( r9 ) : "rcx", "r11", "memory" );
    return r;
}

static void pass_baton( Thr * to )
{
    __atomic_store_n( &to->baton, 1, __ATOMIC_SEQ_CST );
    raw_futex( &to->baton, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1 );
}
static void await_baton( Thr * me )
{
    while ( __atomic_load_n( &me->baton, __ATOMIC_SEQ_CST ) == 0 )
        raw_futex( &me->baton, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0 );
    __atomic_store_n( &me->baton, 0, __ATOMIC_SEQ_CST );
}

static void new_countdown()
{
    nextAt = UINT64_MAX;
    if ( replayMode ) { // entries are (gap, target); the gap counts events since the previous entry
        if ( rpos[ST_PREEMPT] + 1 < rlen[ST_PREEMPT] )
            nextAt = lastPreempt + rdata[ST_PREEMPT][rpos[ST_PREEMPT]];
    }
    else if ( strategy == STR_WALK )
        nextAt = steps + 1 + rnd( rngStrat ) % ( 2ull * stratP );
}

static void switch_to( Thr * me, Thr * to, bool waitBack )
{
    ++switches;
    rt_hash( 0x5117c4ull + static_cast<uint64_t>( me->id ), ( steps << 8 ) + static_cast<uint64_t>( to->id ) );
    hashSync = mix64( hashSync ^ ( static_cast<uint64_t>( to->id ) + 77 ) );
    pass_baton( to );
    if ( waitBack )
        await_baton( me );
}

static int pct_best( const int * c, int n )
{
    int b = 0;
    for ( int i = 1; i < n; ++i )
        if ( thr[c[i]].prio > thr[c[b]].prio )
            b = i;
    return b;
}

static int strategic_index( const int * c, int n )
{
    if ( strategy == STR_PCT )
        return pct_best( c, n );
    int i = static_cast<int>( rnd( rngStrat ) % static_cast<uint64_t>( n ) );
    if ( strategy == STR_STALL && steps >= stallFrom && steps < stallTo && n > 1 && c[i] == stallVictim )
        i = ( i + 1 ) % n;
    return i;
}

static void fair_check()
{
    if ( !fairMode && steps > unfairBudget ) {
        fairMode = true;
        faultsStopped = true;
        fairStart = steps;
    }
    if ( fairMode && steps > fairStart + fairBudget )
        rt_die( 2, "no-progress", "the workload did not complete within %llu steps of fault-free fair scheduling", static_cast<unsigned long long>( fairBudget ) );
}

extern "C" void sim_quiesce_fair()
{
    if ( !fairMode ) {
        fairMode = true;
        faultsStopped = true;
        fairStart = steps;
    }
}
extern "C" void sim_step_budget( uint64_t u, uint64_t f )
{
    unfairBudget = u;
    fairBudget = f;
}

// the running thread stays runnable; maybe let another one run
static void voluntary( Thr * me )
{
    int c[MAXT];
    int n = runnable( c, me );
    if ( fairMode ) {
        if ( n == 0 )
            return;
        int k = 0;
        while ( k < n && c[k] <= me->id )
            ++k;
        switch_to( me, &thr[c[k % n]], true );
        return;
    }
    if ( replayMode ) {
        uint32_t tgt = rdata[ST_PREEMPT][rpos[ST_PREEMPT] + 1];
        record( ST_PREEMPT, rdata[ST_PREEMPT][rpos[ST_PREEMPT]] );
        record( ST_PREEMPT, tgt );
        rpos[ST_PREEMPT] += 2;
        lastPreempt = steps;
        new_countdown();
        if ( n > 0 )
            switch_to( me, &thr[c[tgt % static_cast<uint32_t>( n )]], true );
        return;
    }
    if ( n == 0 || g_sh->res.len[ST_PREEMPT] + 2 > STREAM_CAP )
        return;
    int i = strategic_index( c, n );
    if ( strategy == STR_PCT && thr[c[i]].prio < me->prio )
        return;
    if ( strategy == STR_STALL && c[i] == stallVictim && steps >= stallFrom && steps < stallTo )
        return;
    record( ST_PREEMPT, static_cast<uint32_t>( steps - lastPreempt ) );
    record( ST_PREEMPT, static_cast<uint32_t>( i ) );
    lastPreempt = steps;
    switch_to( me, &thr[c[i]], true );
}

void rt_event( int kind )
{
    Thr * me = t_self;
    ++steps;
    if ( ( steps & 1023 ) == 0 || fairMode )
        fair_check();
    if ( nthr <= 1 )
        return;
    if ( fairMode ) {
        if ( ( kind == 1 && ( steps & 3 ) == 0 ) || ( steps & 127 ) == 0 )
            voluntary( me );
        return;
    }
    if ( replayMode ) {
        if ( steps >= nextAt )
            voluntary( me );
        return;
    }
    switch ( strategy ) {
    case STR_WALK:
        if ( steps >= nextAt ) {
            voluntary( me );
            new_countdown();
        }
        break;
    case STR_SYNC:
        if ( kind == 1 && rnd( rngStrat ) % stratP == 0 )
            voluntary( me );
        break;
    case STR_STALL:
    case STR_SHARED:
        if ( kind != 0 && rnd( rngStrat ) % stratP == 0 )
            voluntary( me );
        break;
    case STR_PCT:
        if ( pctNext < pctN && steps >= pctPoint[pctNext] ) {
            me->prio = -1 - pctNext;
            ++pctNext;
            voluntary( me );
        }
        else if ( kind == 1 )
            voluntary( me ); // a thread of higher priority may have become runnable
        break;
    default:
        break;
    }
}

static bool advance_clock()
{
    uint64_t best = 0;
    for ( int i = 0; i < nthr; ++i )
        if ( thr[i].state != S_RUN && thr[i].state != S_DONE && thr[i].deadline && ( best == 0 || thr[i].deadline < best ) )
            best = thr[i].deadline;
    if ( best == 0 )
        return false;
    if ( best > simNs )
        simNs = best;
    for ( int i = 0; i < nthr; ++i )
        if ( thr[i].state != S_RUN && thr[i].state != S_DONE && thr[i].deadline && thr[i].deadline <= simNs ) {
            thr[i].timedOut = true;
            thr[i].deadline = 0;
            thr[i].state = S_RUN;
        }
    return true;
}

static void pick_next( Thr * me, bool waitBack )
{
    int c[MAXT];
    int n = runnable( c, nullptr );
    while ( n == 0 ) {
        if ( !advance_clock() )
            rt_die( 2, "deadlock", "no thread can make progress" );
        n = runnable( c, nullptr );
    }
    int i = 0;
    if ( n > 1 ) {
        if ( fairMode ) {
            while ( i < n && c[i] <= me->id )
                ++i;
            i %= n;
        }
        else if ( replayMode ) {
            i = static_cast<int>( next_replay( ST_FORCED ) % static_cast<uint32_t>( n ) );
            record( ST_FORCED, static_cast<uint32_t>( i ) );
        }
        else {
            i = g_sh->res.len[ST_FORCED] < STREAM_CAP ? strategic_index( c, n ) : 0;
            record( ST_FORCED, static_cast<uint32_t>( i ) );
        }
    }
    Thr * to = &thr[c[i]];
    if ( to == me )
        return;
    switch_to( me, to, waitBack );
}

static void block( int state, const void * obj, uint64_t deadline = 0, const void * obj2 = nullptr )
{
    Thr * me = t_self;
    me->state = state;
    me->wait = obj;
    me->wait2 = obj2;
    me->deadline = deadline;
    me->timedOut = false;
    me->woken = false;
    me->order = ++waitOrder;
    steps += 1;
    if ( ( steps & 1023 ) == 0 || fairMode )
        fair_check();
    pick_next( me, true );
    me->deadline = 0;
    me->wait = nullptr;
}

static void wake_all( int state, const void * obj )
{
    for ( int i = 0; i < nthr; ++i )
        if ( thr[i].state == state && thr[i].wait == obj ) {
            thr[i].state = S_RUN;
            thr[i].woken = true;
        }
}

static bool wake_one( int state, const void * obj )
{
    int c[MAXT];
    int n = 0;
    for ( int i = 0; i < nthr; ++i )
        if ( thr[i].state == state && thr[i].wait == obj )
            c[n++] = i;
    if ( n == 0 )
        return false;
    int i = 0;
    if ( n > 1 ) {
        if ( replayMode )
            i = static_cast<int>( next_replay( ST_FORCED ) % static_cast<uint32_t>( n ) );
        else
            i = fairMode ? 0 : static_cast<int>( rnd( rngStrat ) % static_cast<uint64_t>( n ) );
        record( ST_FORCED, static_cast<uint32_t>( i ) );
    }
    thr[c[i]].state = S_RUN;
    thr[c[i]].woken = true;
    return true;
}

static void free_sync_check( void * p, size_t n )
{
    uintptr_t a = reinterpret_cast<uintptr_t>( p );
    for ( int i = 0; i < nthr; ++i ) {
        if ( thr[i].state == S_MUTEX || thr[i].state == S_COND || thr[i].state == S_RW || thr[i].state == S_SEM ) {
            uintptr_t w = reinterpret_cast<uintptr_t>( thr[i].wait );
            uintptr_t w2 = reinterpret_cast<uintptr_t>( thr[i].wait2 );
            if ( w - a < n || w2 - a < n )
                rt_die( 2, "freed-while-waiting", "memory holding a lock or condition variable is freed while thread %d is %s it", i, stateName[thr[i].state] );
        }
    }
}

extern "C" int sim_tid() { return t_self ? t_self->id : -1; }
extern "C" int sim_thread_count_live()
{
    int n = 0;
    for ( int i = 0; i < nthr; ++i )
        n += thr[i].state != S_DONE && thr[i].state != S_FREE;
    return n;
}
extern "C" int sim_threads_blocked()
{
    int n = 0;
    for ( int i = 0; i < nthr; ++i )
        n += thr[i].state != S_DONE && thr[i].state != S_FREE && thr[i].state != S_RUN;
    return n;
}
extern "C" void sim_sync_point( const char *, const void * )
{
    if ( sim_self_active() )
        rt_event( 1 );
}

// ------------------------------------------------------------------------------------------------ objects with static storage duration
// An object which a handler of the process exit has destroyed must not be used any more. Objects are known by the registration of their
// destructors, their sizes by the symbol table of the executable.
extern "C" char __executable_start, _end;
struct StaticSym
{
    uintptr_t lo, hi;
    const char * name;
};
static StaticSym * staticSym;
static size_t staticSyms;
static uintptr_t deadLo[256], deadHi[256];
static const char * deadName[256];
static int deadN = 0;

static void load_static_symbols()
{
    const int fd = static_cast<int>( syscall( SYS_open, "/proc/self/exe", O_RDONLY | O_CLOEXEC ) );
    if ( fd < 0 )
        return;
    struct stat st;
    if ( fstat( fd, &st ) == 0 ) {
        void * m = mmap( nullptr, static_cast<size_t>( st.st_size ), PROT_READ, MAP_PRIVATE, fd, 0 );
        if ( m != MAP_FAILED ) {
            const char * b = static_cast<const char *>( m );
            const Elf64_Ehdr * eh = reinterpret_cast<const Elf64_Ehdr *>( b );
            const Elf64_Shdr * sh = reinterpret_cast<const Elf64_Shdr *>( b + eh->e_shoff );
            for ( int i = 0; i < eh->e_shnum; ++i ) {
                if ( sh[i].sh_type != SHT_SYMTAB )
                    continue;
                const Elf64_Sym * sy = reinterpret_cast<const Elf64_Sym *>( b + sh[i].sh_offset );
                const size_t n = sh[i].sh_size / sizeof( Elf64_Sym );
                const char * str = b + sh[sh[i].sh_link].sh_offset;
                staticSym = static_cast<StaticSym *>( mmap( nullptr, ( n + 1 ) * sizeof( StaticSym ), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ) );
                for ( size_t k = 0; k < n; ++k )
                    if ( ELF64_ST_TYPE( sy[k].st_info ) == STT_OBJECT && sy[k].st_size ) {
                        StaticSym & o = staticSym[staticSyms++];
                        o.lo = sy[k].st_value;
                        o.hi = o.lo + sy[k].st_size;
                        o.name = str + sy[k].st_name;
                    }
            }
        }
    }
    syscall( SYS_close, fd );
}

static void static_destroyed( uintptr_t a )
{
    for ( size_t i = 0; i < staticSyms; ++i )
        if ( staticSym[i].lo == a && deadN < 256 ) {
            deadLo[deadN] = a;
            deadHi[deadN] = staticSym[i].hi;
            deadName[deadN++] = staticSym[i].name;
            return;
        }
}

extern "C" void sim_object_destroyed( const void * p, size_t n, const char * name )
{
    if ( deadN == 256 )
        return;
    deadLo[deadN] = reinterpret_cast<uintptr_t>( p );
    deadHi[deadN] = deadLo[deadN] + n;
    deadName[deadN++] = name;
}

static void dead_bad( int k, uintptr_t a, bool wr )
{
    rt_enter();
    int st = 0;
    char * d = abi::__cxa_demangle( deadName[k], nullptr, nullptr, &st );
    rt_die( 2, "use-after-destruction", "%s of %s+%lu which the end of the process has already destroyed", wr ? "write" : "read", d ? d : deadName[k],
            static_cast<unsigned long>( a - deadLo[k] ) );
}

static inline void dead_check( uintptr_t a, size_t n, bool wr )
{
    for ( int k = 0; k < deadN; ++k )
        if ( a < deadHi[k] && a + n > deadLo[k] )
            dead_bad( k, a, wr );
}

struct ExitRec
{
    void ( *fn )( void * );
    void * obj;
};
static ExitRec exitRec[1024];
static int exitRecs = 0;
static void exit_trampoline( void * p )
{
    ExitRec * r = static_cast<ExitRec *>( p );
    r->fn( r->obj );
    if ( g_simActive && t_self )
        static_destroyed( reinterpret_cast<uintptr_t>( r->obj ) );
}
extern "C" int __cxa_atexit( void ( *fn )( void * ), void * obj, void * dso )
{
    static int ( *real )( void ( * )( void * ), void *, void * ) = nullptr;
    if ( !real )
        real = reinterpret_cast<decltype( real )>( rt_real( "__cxa_atexit" ) );
    const uintptr_t a = reinterpret_cast<uintptr_t>( obj );
    if ( a < reinterpret_cast<uintptr_t>( &__executable_start ) || a >= reinterpret_cast<uintptr_t>( &_end ) )
        return real( fn, obj, dso );
    const int i = __atomic_fetch_add( &exitRecs, 1, __ATOMIC_RELAXED );
    if ( i >= 1024 )
        return real( fn, obj, dso );
    exitRec[i].fn = fn;
    exitRec[i].obj = obj;
    return real( exit_trampoline, &exitRec[i], dso );
}

// ------------------------------------------------------------------------------------------------ accesses
void rt_access( const void * p, size_t n, bool wr, bool atom, const char * what )
{
    uintptr_t a = reinterpret_cast<uintptr_t>( p );
    if ( n == 0 )
        return;
    if ( a - ARENA < ARENA_SZ && !sim_heap_valid( p, n ) ) {
        rt_enter();
        heap_bad( a, n, wr, what );
    }
    else if ( deadN )
        dead_check( a, n, wr );
    if ( a - g_forbiddenLo < g_forbiddenSize ) {
        rt_enter();
        rt_die( 2, "device-memory", "code of the host %s memory of a device (%s)", wr ? "writes" : "reads", what ? what : "" );
    }
    if ( raceOn && nthr > 1 )
        race_range( a, n, wr, atom );
}

static inline void access_event( uintptr_t a, size_t n, bool wr )
{
    if ( __builtin_expect( g_accessHook != nullptr, 0 ) ) {
        g_accessHook( a, n, wr );
        return;
    }
    Thr * t = t_self;
    if ( !g_simActive || !t || t->inRt )
        return;
    bool shared = false;
    if ( nthr > 1 ) {
        if ( strategy >= STR_SHARED && !replayMode && !fairMode ) {
            Cell * c = cell( a );
            if ( c ) {
                const uint32_t id = static_cast<uint32_t>( t->id );
                shared = ( c->w && ( c->w >> 24 ) != id ) || ( c->r && ( c->r >> 24 ) != id );
            }
        }
        t->inRt = 1;
        rt_event( shared ? 2 : 0 );
        t->inRt = 0;
    }
    else {
        ++steps;
        if ( ( steps & 1023 ) == 0 ) {
            t->inRt = 1;
            fair_check();
            t->inRt = 0;
        }
    }
    if ( a - ARENA < ARENA_SZ ) {
        unsigned char s = *ash( a );
        size_t off = a & 7;
        if ( !( s <= 8 && off + n <= s ) && !sim_heap_valid( reinterpret_cast<void *>( a ), n ) ) {
            t->inRt = 1;
            heap_bad( a, n, wr, nullptr );
        }
    }
    else if ( a < 4096 ) {
        t->inRt = 1;
        rt_die( 2, "null-access", "%s through a null pointer (address 0x%lx)", wr ? "write" : "read", static_cast<unsigned long>( a ) );
    }
    else if ( a - g_forbiddenLo < g_forbiddenSize ) {
        t->inRt = 1;
        rt_die( 2, "device-memory", "code of the host %s memory of a device", wr ? "writes" : "reads" );
    }
    else if ( __builtin_expect( deadN != 0, 0 ) )
        dead_check( a, n, wr );
    if ( raceOn && nthr > 1 )
        race_range( a, n, wr, false );
}

extern "C" void sim_read( const void * p, size_t n ) { access_event( reinterpret_cast<uintptr_t>( p ), n, false ); }
extern "C" void sim_write( const void * p, size_t n ) { access_event( reinterpret_cast<uintptr_t>( p ), n, true ); }

extern "C" {
#define ACC( N )                                                                                                                                                       \
    void __tsan_read##N( void * p ) { access_event( reinterpret_cast<uintptr_t>( p ), N, false ); }                                                                  \
    void __tsan_write##N( void * p ) { access_event( reinterpret_cast<uintptr_t>( p ), N, true ); }                                                                  \
    void __tsan_unaligned_read##N( void * p ) { access_event( reinterpret_cast<uintptr_t>( p ), N, false ); }                                                        \
    void __tsan_unaligned_write##N( void * p ) { access_event( reinterpret_cast<uintptr_t>( p ), N, true ); }                                                        \
    void __tsan_read_write##N( void * p ) { access_event( reinterpret_cast<uintptr_t>( p ), N, true ); }                                                              \
    void __tsan_unaligned_read_write##N( void * p ) { access_event( reinterpret_cast<uintptr_t>( p ), N, true ); }                                                    \
    void __tsan_volatile_read##N( void * p ) { access_event( reinterpret_cast<uintptr_t>( p ), N, false ); }                                                          \
    void __tsan_volatile_write##N( void * p ) { access_event( reinterpret_cast<uintptr_t>( p ), N, true ); }
ACC( 1 )
ACC( 2 )
ACC( 4 )
ACC( 8 )
ACC( 16 )
void __tsan_read_range( void * p, unsigned long n )
{
    if ( n )
        access_event( reinterpret_cast<uintptr_t>( p ), n, false );
}
void __tsan_write_range( void * p, unsigned long n )
{
    if ( n )
        access_event( reinterpret_cast<uintptr_t>( p ), n, true );
}
void __tsan_vptr_update( void ** p, void * v )
{
    if ( *p != v )
        access_event( reinterpret_cast<uintptr_t>( p ), 8, true );
}
void __tsan_vptr_read( void ** p ) { access_event( reinterpret_cast<uintptr_t>( p ), 8, false ); }
void __tsan_func_entry( void * ) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

static void mo_before( const void * a, int n, bool wr )
{
    Thr * t = t_self;
    if ( !g_simActive || !t || t->inRt )
        return;
    t->inRt = 1;
    rt_event( 1 );
    rt_access( a, static_cast<size_t>( n ), wr, true, "atomic operation" );
    t->inRt = 0;
}
static inline bool mo_acq( int mo ) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
static inline bool mo_rel( int mo ) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void mo_load( const void * a, int mo )
{
    Thr * t = t_self;
    if ( !g_simActive || !t || t->inRt || nthr <= 1 )
        return;
    uint32_t * v = sync_vc( a );
    if ( mo_acq( mo ) )
        vjoin( t->vc, v );
    else {
        vjoin( t->acqF, v );
        t->hasAcqF = true;
    }
}
static void mo_store( const void * a, int mo, bool rmw )
{
    Thr * t = t_self;
    if ( !g_simActive || !t || t->inRt || nthr <= 1 )
        return;
    uint32_t * v = sync_vc( a );
    if ( !rmw )
        for ( int i = 0; i < MAXT; ++i )
            v[i] = 0;
    if ( mo_rel( mo ) ) {
        vjoin( v, t->vc );
        tick( t );
    }
    else if ( t->hasRelF )
        vjoin( v, t->relF );
}
#define ATOM( BITS, T )                                                                                                                                                \
    T __tsan_atomic##BITS##_load( const volatile T * a, int mo )                                                                                                     \
    {                                                                                                                                                                  \
        mo_before( const_cast<const T *>( a ), sizeof( T ), false );                                                                                                 \
        T r = __atomic_load_n( a, __ATOMIC_SEQ_CST );                                                                                                                  \
        mo_load( const_cast<const T *>( a ), mo );                                                                                                                   \
        return r;                                                                                                                                                      \
    }                                                                                                                                                                  \
    void __tsan_atomic##BITS##_store( volatile T * a, T v, int mo )                                                                                                  \
    {                                                                                                                                                                  \
        mo_before( const_cast<const T *>( a ), sizeof( T ), true );                                                                                                  \
        mo_store( const_cast<const T *>( a ), mo, false );                                                                                                           \
        __atomic_store_n( a, v, __ATOMIC_SEQ_CST );                                                                                                                    \
    }                                                                                                                                                                  \
    T __tsan_atomic##BITS##_exchange( volatile T * a, T v, int mo )                                                                                                  \
    {                                                                                                                                                                  \
        mo_before( const_cast<const T *>( a ), sizeof( T ), true );                                                                                                  \
        mo_load( const_cast<const T *>( a ), mo );                                                                                                                   \
        mo_store( const_cast<const T *>( a ), mo, true );                                                                                                            \
        return __atomic_exchange_n( a, v, __ATOMIC_SEQ_CST );                                                                                                          \
    }                                                                                                                                                                  \
    T __tsan_atomic##BITS##_fetch_add( volatile T * a, T v, int mo )                                                                                                 \
    {                                                                                                                                                                  \
        mo_before( const_cast<const T *>( a ), sizeof( T ), true );                                                                                                  \
        mo_load( const_cast<const T *>( a ), mo );                                                                                                                   \
        mo_store( const_cast<const T *>( a ), mo, true );                                                                                                            \
        return __atomic_fetch_add( a, v, __ATOMIC_SEQ_CST );                                                                                                           \
    }                                                                                                                                                                  \
    T __tsan_atomic##BITS##_fetch_sub( volatile T * a, T v, int mo )                                                                                                 \
    {                                                                                                                                                                  \
        mo_before( const_cast<const T *>( a ), sizeof( T ), true );                                                                                                  \
        mo_load( const_cast<const T *>( a ), mo );                                                                                                                   \
        mo_store( const_cast<const T *>( a ), mo, true );                                                                                                            \
        return __atomic_fetch_sub( a, v, __ATOMIC_SEQ_CST );                                                                                                           \
    }                                                                                                                                                                  \
    T __tsan_atomic##BITS##_fetch_and( volatile T * a, T v, int mo )                                                                                                 \
    {                                                                                                                                                                  \
        mo_before( const_cast<const T *>( a ), sizeof( T ), true );                                                                                                  \
        mo_load( const_cast<const T *>( a ), mo );                                                                                                                   \
        mo_store( const_cast<const T *>( a ), mo, true );                                                                                                            \
        return __atomic_fetch_and( a, v, __ATOMIC_SEQ_CST );                                                                                                           \
    }                                                                                                                                                                  \
    T __tsan_atomic##BITS##_fetch_or( volatile T * a, T v, int mo )                                                                                                  \
    {                                                                                                                                                                  \
        mo_before( const_cast<const T *>( a ), sizeof( T ), true );                                                                                                  \
        mo_load( const_cast<const T *>( a ), mo );                                                                                                                   \
        mo_store( const_cast<const T *>( a ), mo, true );                                                                                                            \
        return __atomic_fetch_or( a, v, __ATOMIC_SEQ_CST );                                                                                                            \
    }                                                                                                                                                                  \
    T __tsan_atomic##BITS##_fetch_xor( volatile T * a, T v, int mo )                                                                                                 \
    {                                                                                                                                                                  \
        mo_before( const_cast<const T *>( a ), sizeof( T ), true );                                                                                                  \
        mo_load( const_cast<const T *>( a ), mo );                                                                                                                   \
        mo_store( const_cast<const T *>( a ), mo, true );                                                                                                            \
        return __atomic_fetch_xor( a, v, __ATOMIC_SEQ_CST );                                                                                                           \
    }                                                                                                                                                                  \
    int __tsan_atomic##BITS##_compare_exchange_strong( volatile T * a, T * c, T v, int mo, int fmo )                                                                 \
    {                                                                                                                                                                  \
        mo_before( const_cast<const T *>( a ), sizeof( T ), true );                                                                                                  \
        T e = *c;                                                                                                                                                      \
        bool ok = __atomic_compare_exchange_n( a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST );                                                                  \
        if ( ok ) {                                                                                                                                                    \
            mo_load( const_cast<const T *>( a ), mo );                                                                                                               \
            mo_store( const_cast<const T *>( a ), mo, true );                                                                                                        \
        }                                                                                                                                                              \
        else {                                                                                                                                                         \
            mo_load( const_cast<const T *>( a ), fmo );                                                                                                              \
            *c = e;                                                                                                                                                    \
        }                                                                                                                                                              \
        return ok;                                                                                                                                                     \
    }                                                                                                                                                                  \
    int __tsan_atomic##BITS##_compare_exchange_weak( volatile T * a, T * c, T v, int mo, int fmo )                                                                   \
    {                                                                                                                                                                  \
        return __tsan_atomic##BITS##_compare_exchange_strong( a, c, v, mo, fmo );                                                                                      \
    }                                                                                                                                                                  \
    T __tsan_atomic##BITS##_compare_exchange_val( volatile T * a, T c, T v, int mo, int fmo )                                                                        \
    {                                                                                                                                                                  \
        __tsan_atomic##BITS##_compare_exchange_strong( a, &c, v, mo, fmo );                                                                                            \
        return c;                                                                                                                                                      \
    }
ATOM( 8, uint8_t )
ATOM( 16, uint16_t )
ATOM( 32, uint32_t )
ATOM( 64, uint64_t )
void __tsan_atomic_thread_fence( int mo )
{
    Thr * t = t_self;
    if ( !g_simActive || !t || t->inRt || nthr <= 1 )
        return;
    t->inRt = 1;
    rt_event( 1 );
    t->inRt = 0;
    if ( mo_acq( mo ) && t->hasAcqF )
        vjoin( t->vc, t->acqF );
    if ( mo == __ATOMIC_SEQ_CST ) {
        static char sc;
        vjoin( t->vc, sync_vc( &sc ) );
        vjoin( sync_vc( &sc ), t->vc );
    }
    if ( mo_rel( mo ) ) {
        vset( t->relF, t->vc );
        t->hasRelF = true;
        tick( t );
    }
}
void __tsan_atomic_signal_fence( int ) {}

// memory functions: visible for all code, including shared libraries
static void mem_acc( const void * p, size_t n, bool wr, const char * f )
{
    if ( __builtin_expect( g_accessHook != nullptr, 0 ) && n ) {
        g_accessHook( reinterpret_cast<uintptr_t>( p ), n, wr );
        return;
    }
    Thr * t = t_self;
    if ( !g_simActive || !t || t->inRt || n == 0 )
        return;
    t->inRt = 1;
    rt_event( 0 );
    rt_access( p, n, wr, false, f );
    t->inRt = 0;
}
void * memcpy( void * d, const void * s, size_t n )
{
    mem_acc( s, n, false, "memcpy" );
    mem_acc( d, n, true, "memcpy" );
    void * r = d;
    bcopy_( d, s, n );
    return r;
}
void * memmove( void * d, const void * s, size_t n )
{
    mem_acc( s, n, false, "memmove" );
    mem_acc( d, n, true, "memmove" );
    unsigned char * a = static_cast<unsigned char *>( d );
    const unsigned char * b = static_cast<const unsigned char *>( s );
    if ( a <= b || a >= b + n )
        bcopy_( d, s, n );
    else {
        size_t i = n;
        while ( i >= 8 ) {
            i -= 8;
            uint64_t v = *reinterpret_cast<const uint64_t __attribute__( ( aligned( 1 ), may_alias ) ) *>( b + i );
            *reinterpret_cast<uint64_t __attribute__( ( aligned( 1 ), may_alias ) ) *>( a + i ) = v;
        }
        while ( i-- > 0 ) {
            a[i] = b[i];
            __asm__ volatile( "" ::: "memory" );
        }
    }
    return d;
}
void * memset( void * d, int v, size_t n )
{
    mem_acc( d, n, true, "memset" );
    bfill( d, v, n );
    return d;
}
int memcmp( const void * x, const void * y, size_t n )
{
    mem_acc( x, n, false, "memcmp" );
    mem_acc( y, n, false, "memcmp" );
    const unsigned char * a = static_cast<const unsigned char *>( x );
    const unsigned char * b = static_cast<const unsigned char *>( y );
    for ( size_t i = 0; i < n; ++i )
        if ( a[i] != b[i] )
            return a[i] < b[i] ? -1 : 1;
    return 0;
}
int bcmp( const void * x, const void * y, size_t n ) { return memcmp( x, y, n ); }
} // extern C

// ------------------------------------------------------------------------------------------------ pthreads
#define SIMD ( g_simActive && t_self && t_self->inRt == 0 )
static pthread_key_t finKey;

static void thread_finish( void * )
{
    Thr * me = t_self;
    if ( !me || me->state == S_DONE )
        return;
    rt_enter();
    hb_rel( me );
    rt_hash( 0xf1, static_cast<uint64_t>( me->id ) );
    me->state = S_DONE;
    wake_all( S_JOIN, me );
    // choose who goes on; this real thread then leaves
    int any = 0;
    for ( int i = 0; i < nthr; ++i )
        any |= thr[i].state != S_DONE && thr[i].state != S_FREE;
    if ( any )
        pick_next( me, false );
}

static void * trampoline( void * a )
{
    Thr * me = static_cast<Thr *>( a );
    t_self = me;
    me->inRt = 1;
    pthread_setspecific( finKey, me );
    await_baton( me );
    me->inRt = 0;
    void * r = me->fn( me->arg );
    me->ret = r;
    return r;
}

static int spawn( void * ( *fn )( void * ), void * arg, Thr ** out )
{
    if ( nthr >= MAXT )
        rt_die( 3, "sim-limit", "too many threads" );
    Thr * t = &thr[nthr];
    memset( t, 0, sizeof *t );
    t->id = nthr;
    t->fn = fn;
    t->arg = arg;
    t->prio = static_cast<int>( rnd( rngStrat ) % 1000000 );
    t->vc[t->id] = 1;
    if ( t_self )
        vjoin( t->vc, t_self->vc );
    t->state = S_RUN;
    ++nthr;
    if ( t_self ) {
        tick( t_self );
    }
    pthread_attr_t at;
    pthread_attr_init( &at );
    pthread_attr_setstack( &at, reinterpret_cast<void *>( STACKS + static_cast<size_t>( t->id ) * STACK_SZ + 4096 ), STACK_SZ - 4096 );
    int r = real_create( &t->real, &at, trampoline, t );
    pthread_attr_destroy( &at );
    if ( r != 0 )
        rt_die( 3, "sim-limit", "cannot create a real thread: %d", r );
    *out = t;
    return 0;
}

static Thr * find_thr( pthread_t p )
{
    for ( int i = 0; i < nthr; ++i )
        if ( thr[i].state != S_FREE && pthread_equal( thr[i].real, p ) )
            return &thr[i];
    return nullptr;
}

static void sync_event( const void * o, int code, size_t n )
{
    rt_event( 1 );
    rt_access( o, n, false, true, "synchronisation object" );
    hashSync = mix64( hashSync ^ ( static_cast<uint64_t>( t_self->id ) * 31 + static_cast<uint64_t>( code ) ) );
    rt_hash( static_cast<uint64_t>( code ) + 0x900, reinterpret_cast<uint64_t>( o ) );
}

extern "C" {
int pthread_create( pthread_t * out, const pthread_attr_t * at, void * ( *fn )( void * ), void * arg )
{
    if ( !SIMD )
        return real_create( out, at, fn, arg );
    RtGuard g;
    sync_event( &nthr, 1, 4 );
    if ( !faultsStopped && threadGap && t_self->sut > 0 && --threadGap == 0 ) {
        threadGap = threadMean ? draw_gap( ST_THREAD, threadMean ) : 0;
        ++threadFailed;
        sim_count( "fault.pthread_create", 1 );
        sim_event( "fault.pthread_create", static_cast<uint64_t>( nthr ), 0 );
        return EAGAIN;
    }
    Thr * t;
    spawn( fn, arg, &t );
    int det = 0;
    if ( at )
        pthread_attr_getdetachstate( at, &det );
    t->detached = det == PTHREAD_CREATE_DETACHED;
    t->sut = t_self->sut > 0 ? 1 : 0;
    *out = t->real;
    rt_event( 1 );
    return 0;
}

int pthread_join( pthread_t p, void ** ret )
{
    if ( !SIMD )
        return real_join( p, ret );
    RtGuard g;
    sync_event( &nthr, 2, 4 );
    Thr * t = find_thr( p );
    if ( !t || t->joined || t->detached )
        rt_die( 2, "bad-join", "joining a thread that is not joinable" );
    if ( t == t_self )
        return EDEADLK;
    while ( t->state != S_DONE )
        block( S_JOIN, t );
    hb_acq( t );
    t->joined = true;
    if ( ret )
        *ret = t->ret;
    real_join( p, nullptr );
    return 0;
}

int pthread_detach( pthread_t p )
{
    static int ( *real )( pthread_t );
    if ( !SIMD ) {
        if ( !real )
            real = reinterpret_cast<int ( * )( pthread_t )>( rt_real( "pthread_detach" ) );
        return real( p );
    }
    RtGuard g;
    Thr * t = find_thr( p );
    if ( t )
        t->detached = true;
    return 0;
}

// mutex: state is kept in the object itself (owner = thread id + 1)
static void mutex_lock_( pthread_mutex_t * m )
{
    Thr * me = t_self;
    while ( m->__data.__owner != 0 ) {
        if ( m->__data.__owner == me->id + 1 && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP ) {
            ++m->__data.__count;
            return;
        }
        block( S_MUTEX, m );
        rt_access( m, sizeof *m, false, true, "mutex" );
    }
    m->__data.__owner = me->id + 1;
    m->__data.__count = 1;
    hb_acq( m );
}
static void mutex_unlock_( pthread_mutex_t * m )
{
    Thr * me = t_self;
    if ( m->__data.__owner != me->id + 1 )
        rt_die( 2, "lock-misuse", "thread %d unlocks a mutex it does not hold (owner %d)", me->id, m->__data.__owner - 1 );
    if ( --m->__data.__count > 0 )
        return;
    hb_rel( m );
    m->__data.__owner = 0;
    wake_all( S_MUTEX, m );
}
int pthread_mutex_lock( pthread_mutex_t * m )
{
    if ( !SIMD )
        return 0;
    RtGuard g;
    sync_event( m, 3, sizeof *m );
    mutex_lock_( m );
    return 0;
}
int pthread_mutex_trylock( pthread_mutex_t * m )
{
    if ( !SIMD )
        return 0;
    RtGuard g;
    sync_event( m, 4, sizeof *m );
    if ( m->__data.__owner != 0 && !( m->__data.__owner == t_self->id + 1 && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP ) )
        return EBUSY;
    mutex_lock_( m );
    return 0;
}
static uint64_t ts_ns( const struct timespec * ts ) { return static_cast<uint64_t>( ts->tv_sec ) * 1000000000ull + static_cast<uint64_t>( ts->tv_nsec ); }
static const uint64_t EPOCH0 = 1700000000ull * 1000000000ull;
static uint64_t sim_clock( clockid_t c ) { return c == CLOCK_REALTIME ? EPOCH0 + simNs + steps * 10 : 1000000000ull + simNs + steps * 10; }
static uint64_t to_deadline( clockid_t c, const struct timespec * ts )
{
    uint64_t base = c == CLOCK_REALTIME ? EPOCH0 : 1000000000ull;
    uint64_t t = ts_ns( ts );
    uint64_t d = t > base + steps * 10 ? t - base - steps * 10 : 0;
    return d > simNs ? d : simNs + 1;
}
int pthread_mutex_clocklock( pthread_mutex_t * m, clockid_t clk, const struct timespec * ts )
{
    if ( !SIMD )
        return 0;
    RtGuard g;
    sync_event( m, 5, sizeof *m );
    uint64_t dl = to_deadline( clk, ts );
    while ( m->__data.__owner != 0 ) {
        block( S_MUTEX, m, dl );
        if ( t_self->timedOut )
            return ETIMEDOUT;
    }
    mutex_lock_( m );
    return 0;
}
int pthread_mutex_timedlock( pthread_mutex_t * m, const struct timespec * ts ) { return pthread_mutex_clocklock( m, CLOCK_REALTIME, ts ); }
int pthread_mutex_unlock( pthread_mutex_t * m )
{
    if ( !SIMD )
        return 0;
    RtGuard g;
    rt_access( m, sizeof *m, false, true, "mutex" );
    mutex_unlock_( m );
    sync_event( m, 6, 0 );
    return 0;
}
int pthread_mutex_init( pthread_mutex_t * m, const pthread_mutexattr_t * a )
{
    for ( size_t i = 0; i < sizeof *m; ++i )
        reinterpret_cast<volatile char *>( m )[i] = 0;
    if ( a ) {
        int k = 0;
        pthread_mutexattr_gettype( a, &k );
        m->__data.__kind = k;
    }
    return 0;
}
int pthread_mutex_destroy( pthread_mutex_t * m )
{
    if ( SIMD && m->__data.__owner != 0 )
        rt_die( 2, "lock-misuse", "mutex destroyed while locked" );
    return 0;
}

static int cond_wait_( pthread_cond_t * c, pthread_mutex_t * m, uint64_t dl )
{
    Thr * me = t_self;
    if ( m->__data.__owner != me->id + 1 )
        rt_die( 2, "lock-misuse", "condition wait without holding the mutex" );
    unsigned cnt = m->__data.__count;
    m->__data.__count = 1;
    mutex_unlock_( m );
    int r = 0;
    if ( sim_chance( ST_SPUR, 1, 40 ) ) {
        sim_count( "fault.spurious_wakeup", 1 );
        rt_event( 1 );
    }
    else {
        block( S_COND, c, dl, m );
        if ( me->timedOut )
            r = ETIMEDOUT;
        rt_access( m, sizeof *m, false, true, "mutex" );
    }
    mutex_lock_( m );
    m->__data.__count = cnt;
    return r;
}
int pthread_cond_wait( pthread_cond_t * c, pthread_mutex_t * m )
{
    if ( !SIMD )
        return 0;
    RtGuard g;
    sync_event( c, 7, sizeof *c );
    return cond_wait_( c, m, 0 );
}
int pthread_cond_timedwait( pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts )
{
    if ( !SIMD )
        return 0;
    RtGuard g;
    sync_event( c, 8, sizeof *c );
    return cond_wait_( c, m, to_deadline( CLOCK_REALTIME, ts ) );
}
int pthread_cond_clockwait( pthread_cond_t * c, pthread_mutex_t * m, clockid_t clk, const struct timespec * ts )
{
    if ( !SIMD )
        return 0;
    RtGuard g;
    sync_event( c, 9, sizeof *c );
    return cond_wait_( c, m, to_deadline( clk, ts ) );
}
int pthread_cond_signal( pthread_cond_t * c )
{
    if ( !SIMD )
        return 0;
    RtGuard g;
    sync_event( c, 10, sizeof *c );
    wake_one( S_COND, c );
    return 0;
}
int pthread_cond_broadcast( pthread_cond_t * c )
{
    if ( !SIMD )
        return 0;
    RtGuard g;
    sync_event( c, 11, sizeof *c );
    wake_all( S_COND, c );
    return 0;
}
int pthread_cond_init( pthread_cond_t * c, const pthread_condattr_t * )
{
    for ( size_t i = 0; i < sizeof *c; ++i )
        reinterpret_cast<volatile char *>( c )[i] = 0;
    return 0;
}
int pthread_cond_destroy( pthread_cond_t * c )
{
    if ( SIMD ) {
        rt_enter();
        for ( int i = 0; i < nthr; ++i )
            if ( thr[i].state == S_COND && thr[i].wait == c )
                rt_die( 2, "freed-while-waiting", "condition variable destroyed while thread %d waits on it", i );
        rt_leave();
    }
    return 0;
}

// rwlock: __readers = number of readers, __cur_writer = writer id + 1
int pthread_rwlock_rdlock( pthread_rwlock_t * l )
{
    if ( !SIMD )
        return 0;
    RtGuard g;
    sync_event( l, 12, sizeof *l );
    while ( l->__data.__cur_writer != 0 )
        block( S_RW, l );
    ++l->__data.__readers;
    hb_acq( l );
    return 0;
}
int pthread_rwlock_wrlock( pthread_rwlock_t * l )
{
    if ( !SIMD )
        return 0;
    RtGuard g;
    sync_event( l, 13, sizeof *l );
    while ( l->__data.__cur_writer != 0 || l->__data.__readers != 0 )
        block( S_RW, l );
    l->__data.__cur_writer = t_self->id + 1;
    hb_acq( l );
    return 0;
}
int pthread_rwlock_unlock( pthread_rwlock_t * l )
{
    if ( !SIMD )
        return 0;
    RtGuard g;
    hb_rel( l );
    if ( l->__data.__cur_writer == t_self->id + 1 )
        l->__data.__cur_writer = 0;
    else if ( l->__data.__readers )
        --l->__data.__readers;
    wake_all( S_RW, l );
    sync_event( l, 14, 0 );
    return 0;
}
int pthread_spin_lock( pthread_spinlock_t * l )
{
    if ( !SIMD )
        return 0;
    RtGuard g;
    sync_event( const_cast<int *>( l ), 15, 4 );
    while ( *l )
        block( S_RW, const_cast<int *>( l ) );
    *l = 1;
    hb_acq( const_cast<int *>( l ) );
    return 0;
}
int pthread_spin_unlock( pthread_spinlock_t * l )
{
    if ( !SIMD )
        return 0;
    RtGuard g;
    hb_rel( const_cast<int *>( l ) );
    *l = 0;
    wake_all( S_RW, const_cast<int *>( l ) );
    return 0;
}
int pthread_once( pthread_once_t * o, void ( *fn )() )
{
    if ( !SIMD ) {
        if ( *o == 0 ) {
            fn();
            *o = 2;
        }
        return 0;
    }
    rt_enter();
    sync_event( const_cast<int *>( o ), 16, 4 );
    while ( *o == 1 )
        block( S_GUARD, const_cast<int *>( o ) );
    if ( *o == 2 ) {
        hb_acq( const_cast<int *>( o ) );
        rt_leave();
        return 0;
    }
    *o = 1;
    rt_leave();
    try {
        fn();
    }
    catch ( ... ) {
        *o = 0;
        wake_all( S_GUARD, const_cast<int *>( o ) );
        throw;
    }
    rt_enter();
    *o = 2;
    hb_rel( const_cast<int *>( o ) );
    wake_all( S_GUARD, const_cast<int *>( o ) );
    rt_leave();
    return 0;
}

// function-local statics
int __cxa_guard_acquire( uint64_t * gp )
{
    volatile unsigned char * b = reinterpret_cast<unsigned char *>( gp );
    if ( !SIMD ) {
        if ( b[0] )
            return 0;
        b[1] = 1;
        return 1;
    }
    RtGuard g;
    sync_event( gp, 17, 8 );
    while ( !b[0] && b[1] )
        block( S_GUARD, gp );
    if ( b[0] ) {
        hb_acq( gp );
        return 0;
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release( uint64_t * gp )
{
    unsigned char * b = reinterpret_cast<unsigned char *>( gp );
    if ( !SIMD ) {
        b[1] = 0;
        b[0] = 1;
        return;
    }
    RtGuard g;
    b[1] = 0;
    b[0] = 1;
    hb_rel( gp );
    wake_all( S_GUARD, gp );
    sync_event( gp, 18, 8 );
}
void __cxa_guard_abort( uint64_t * gp )
{
    unsigned char * b = reinterpret_cast<unsigned char *>( gp );
    b[1] = 0;
    if ( !SIMD )
        return;
    RtGuard g;
    hb_rel( gp );
    wake_all( S_GUARD, gp );
}

// time
int sched_yield()
{
    if ( !SIMD )
        return 0;
    RtGuard g;
    rt_event( 1 );
    if ( nthr > 1 ) {
        // yield is a forced switch: pick any runnable thread other than this one, if there is one
        Thr * me = t_self;
        int c[MAXT];
        if ( runnable( c, me ) > 0 ) {
            me->state = S_SLEEP;
            me->deadline = 0;
            me->woken = false;
            // stay eligible for later picks, but not for this one
            int n = runnable( c, me );
            int i = 0;
            if ( n > 1 ) {
                if ( fairMode )
                    while ( i < n - 1 && c[i] <= me->id )
                        ++i;
                else {
                    i = replayMode ? static_cast<int>( next_replay( ST_FORCED ) % static_cast<uint32_t>( n ) ) : strategic_index( c, n );
                    record( ST_FORCED, static_cast<uint32_t>( i ) );
                }
            }
            me->state = S_RUN;
            switch_to( me, &thr[c[i]], true );
        }
    }
    return 0;
}
static void sim_sleep( uint64_t ns )
{
    RtGuard g;
    rt_event( 1 );
    block( S_SLEEP, nullptr, simNs + ( ns ? ns : 1 ) );
}
int nanosleep( const struct timespec * ts, struct timespec * )
{
    if ( SIMD )
        sim_sleep( ts_ns( ts ) );
    return 0;
}
int clock_nanosleep( clockid_t c, int flags, const struct timespec * ts, struct timespec * )
{
    if ( SIMD ) {
        uint64_t d = ts_ns( ts );
        if ( flags & TIMER_ABSTIME ) {
            uint64_t now = sim_clock( c );
            d = d > now ? d - now : 0;
        }
        sim_sleep( d );
    }
    return 0;
}
int usleep( useconds_t us )
{
    if ( SIMD )
        sim_sleep( static_cast<uint64_t>( us ) * 1000 );
    return 0;
}
unsigned sleep( unsigned s )
{
    if ( SIMD )
        sim_sleep( static_cast<uint64_t>( s ) * 1000000000ull );
    return 0;
}
int clock_gettime( clockid_t c, struct timespec * ts )
{
    if ( !SIMD )
        return real_clock_gettime ? real_clock_gettime( c, ts ) : static_cast<int>( syscall( SYS_clock_gettime, c, ts ) );
    uint64_t t = sim_clock( c );
    ts->tv_sec = static_cast<time_t>( t / 1000000000ull );
    ts->tv_nsec = static_cast<long>( t % 1000000000ull );
    return 0;
}
int gettimeofday( struct timeval * tv, void * )
{
    struct timespec ts;
    clock_gettime( CLOCK_REALTIME, &ts );
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time( time_t * p )
{
    struct timespec ts;
    clock_gettime( CLOCK_REALTIME, &ts );
    if ( p )
        *p = ts.tv_sec;
    return ts.tv_sec;
}

// semaphores
int sem_init( sem_t * s, int, unsigned v )
{
    *reinterpret_cast<unsigned *>( s ) = v;
    return 0;
}
int sem_destroy( sem_t * ) { return 0; }
int sem_wait( sem_t * s )
{
    if ( !SIMD )
        return 0;
    RtGuard g;
    sync_event( s, 19, sizeof *s );
    unsigned * v = reinterpret_cast<unsigned *>( s );
    while ( *v == 0 )
        block( S_SEM, s );
    --*v;
    hb_acq( s );
    return 0;
}
int sem_post( sem_t * s )
{
    if ( !SIMD )
        return 0;
    RtGuard g;
    sync_event( s, 20, sizeof *s );
    ++*reinterpret_cast<unsigned *>( s );
    hb_rel( s );
    wake_all( S_SEM, s );
    return 0;
}

// futex based library code (std::future, std::atomic::wait)
long syscall( long nr, ... )
{
    va_list ap;
    va_start( ap, nr );
    long a = va_arg( ap, long ), b = va_arg( ap, long ), c = va_arg( ap, long ), d = va_arg( ap, long ), e = va_arg( ap, long ), f = va_arg( ap, long );
    va_end( ap );
    if ( nr == SYS_futex && SIMD ) {
        RtGuard g;
        int op = static_cast<int>( b ) & 0x7f;
        int * addr = reinterpret_cast<int *>( a );
        rt_event( 1 );
        if ( op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET ) {
            if ( *addr != static_cast<int>( c ) ) {
                errno = EAGAIN;
                return -1;
            }
            block( S_FUTEX, addr, d ? simNs + ts_ns( reinterpret_cast<struct timespec *>( d ) ) : 0 );
            if ( t_self->timedOut ) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if ( op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET ) {
            long n = 0;
            while ( n < static_cast<int>( c ) && wake_one( S_FUTEX, addr ) )
                ++n;
            return n;
        }
    }
    long r;
    register long r10 __asm__( "r10" ) = d;
    register long r8 __asm__( "r8" ) = e;
    register long r9 __asm__( "r9" ) = f;
    __asm__ volatile( "syscall" : "=a"( r ) : "a"( nr ), "D"( a ), "S"( b ), "d"( c ), "r"( r10 ), "r"( r8 ), "r"( r9 ) : "rcx", "r11", "memory" );
    if ( r < 0 && r > -4096 ) {
        errno = static_cast<int>( -r );
        return -1;
    }
    return r;
}

// process termination
static bool exitAllowed = false;
static void ( *endFn )() = nullptr;
void sim_at_end( void ( *fn )() ) { endFn = fn; }
void exit( int code )
{
    if ( SIMD && !exitAllowed ) {
        rt_enter();
        rt_die( 2, "process-exit", "the process was terminated by exit(%d)", code );
    }
    real_exit( code );
    __builtin_unreachable();
}
void sim_exit_normally()
{
    exitAllowed = true;
    sim_heap_check();
    real_exit( 0 );
    __builtin_unreachable();
}
static const size_t SOLO_CAP = 1u << 20;
static char * g_solo;
long sim_solo( size_t ( *fn )( void *, char *, size_t ), void * arg, char * out, size_t cap )
{
    rt_enter();
    long * len = reinterpret_cast<long *>( g_solo );
    *len = -1;
    const pid_t pid = fork();
    if ( pid < 0 )
        rt_die( 3, "internal", "cannot fork" );
    if ( pid == 0 ) {
        SimShared * own = static_cast<SimShared *>( mmap( nullptr, sizeof( SimShared ), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
        if ( own == MAP_FAILED )
            _exit( 1 );
        g_sh = own;
        alarm( 60 );
        rt_leave();
        const size_t n = fn( arg, g_solo + sizeof( long ), SOLO_CAP - sizeof( long ) );
        rt_enter();
        *len = static_cast<long>( n );
        _exit( 0 );
    }
    int st = 0;
    while ( waitpid( pid, &st, 0 ) < 0 && errno == EINTR ) {
    }
    const long n = *len;
    if ( n >= 0 )
        memcpy( out, g_solo + sizeof( long ), static_cast<size_t>( n ) < cap ? static_cast<size_t>( n ) : cap );
    rt_leave();
    return n;
}
int get_nprocs() { return 4; }
int get_nprocs_conf() { return 4; }
} // extern C

static void at_exit_last()
{
    if ( !g_simActive || !t_self )
        return;
    if ( exitAllowed ) {
        rt_enter();
        if ( endFn )
            endFn();
        if ( g_sh->res.done == 0 )
            finish( 1 );
        _exit( 0 );
    }
}

// ------------------------------------------------------------------------------------------------ run & server
static SimScenario * scenarios;
SimScenario::SimScenario( const char * n, SimScenarioFn f, SimScenarioFn w )
    : name( n )
    , fn( f )
    , warm( w )
    , next( scenarios )
{
    scenarios = this;
}

static void on_signal( int s, siginfo_t * si, void * )
{
    const char * n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : s == SIGBUS ? "SIGBUS" : s == SIGPROF ? "cpu-limit" : "signal";
    if ( s == SIGPROF )
        rt_die( 2, "no-progress", "the run used its processor time limit without completing" );
    char cls[64];
    snprintf( cls, sizeof cls, "crash-%s", n );
    rt_die( 2, cls, "the process crashed with %s%s", n, s == SIGSEGV && reinterpret_cast<uintptr_t>( si->si_addr ) < 65536 ? " (null pointer)" : "" );
}

static SimScenarioFn mainFn;
static void * sim_main( void * )
{
    mainFn();
    rt_enter();
    sim_heap_check();
    if ( g_sh->res.done == 0 )
        finish( 1 );
    _exit( 0 );
}

static uint64_t runSeed;

static void run_child( SimScenario * sc, bool replay, uint64_t seed )
{
    replayMode = replay;
    runSeed = seed;
    uint64_t s = seed;
    for ( int i = 0; i < ST_COUNT; ++i )
        rngS[i] = mix64( s + 0x1000ull * static_cast<uint64_t>( i + 1 ) );
    rngStrat = mix64( s ^ 0x5eed5eedull );
    if ( !replay ) {
        static const int wheel[] = { STR_NONE, STR_WALK, STR_WALK, STR_SYNC, STR_SYNC, STR_SHARED, STR_SHARED, STR_SHARED, STR_PCT, STR_PCT, STR_STALL, STR_STALL };
        strategy = wheel[rnd( rngStrat ) % ( sizeof wheel / sizeof wheel[0] )];
        static const uint32_t ps[] = { 2, 3, 6, 12, 30, 100 };
        static const uint32_t pw[] = { 2, 8, 30, 100, 400, 2000 };
        stratP = strategy == STR_WALK ? pw[rnd( rngStrat ) % 6] : ps[rnd( rngStrat ) % 6];
        pctN = 1 + static_cast<int>( rnd( rngStrat ) % 4 );
        uint64_t span = 1ull << ( 5 + rnd( rngStrat ) % 11 );
        for ( int i = 0; i < pctN; ++i )
            pctPoint[i] = 1 + rnd( rngStrat ) % span;
        for ( int i = 1; i < pctN; ++i )
            for ( int k = i; k > 0 && pctPoint[k] < pctPoint[k - 1]; --k ) {
                uint64_t x = pctPoint[k];
                pctPoint[k] = pctPoint[k - 1];
                pctPoint[k - 1] = x;
            }
        stallVictim = static_cast<int>( rnd( rngStrat ) % 6 );
        stallFrom = rnd( rngStrat ) % span;
        stallTo = stallFrom + ( 1ull << ( 6 + rnd( rngStrat ) % 12 ) );
    }
    new_countdown();
    SimResult & r = g_sh->res;
    r.done = 0;
    r.cls[0] = r.msg[0] = r.trace[0] = 0;
    r.overflow = 0;
    r.noteLen = 0;
    r.faults = 0;
    for ( int i = 0; i < ST_COUNT; ++i )
        r.len[i] = 0;

    map_shadow();
    struct sigaction sa;
    memset( &sa, 0, sizeof sa );
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO;
    int sigs[] = { SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGPROF };
    for ( int x : sigs )
        sigaction( x, &sa, nullptr );
    struct itimerval it;
    memset( &it, 0, sizeof it );
    it.it_value.tv_sec = 40;
    setitimer( ITIMER_PROF, &it, nullptr );
    alarm( 150 );

    pthread_key_create( &finKey, thread_finish );
    disk_init_run();
    mainFn = sc->fn;
    g_simActive = true;
    Thr * t;
    spawn( sim_main, nullptr, &t );
    pass_baton( t );
    for ( ;; )
        pause();
}

static char inbuf[1u << 20];
static size_t inLen, inPos;
static bool read_line( char * out, size_t cap )
{
    size_t k = 0;
    for ( ;; ) {
        if ( inPos == inLen ) {
            ssize_t n = syscall( SYS_read, 0, inbuf, sizeof inbuf );
            if ( n <= 0 )
                return false;
            inLen = static_cast<size_t>( n );
            inPos = 0;
        }
        char c = inbuf[inPos++];
        if ( c == '\n' ) {
            out[k] = 0;
            return true;
        }
        if ( k + 1 < cap )
            out[k++] = c;
    }
}

static char outb[1u << 22];
static size_t outLen;
static void out_flush()
{
    size_t p = 0;
    while ( p < outLen ) {
        ssize_t n = syscall( SYS_write, 1, outb + p, outLen - p );
        if ( n <= 0 )
            _exit( 0 );
        p += static_cast<size_t>( n );
    }
    outLen = 0;
}
static void outf( const char * fmt, ... )
{
    if ( outLen + 8192 > sizeof outb )
        out_flush();
    va_list ap;
    va_start( ap, fmt );
    outLen += static_cast<size_t>( vsnprintf( outb + outLen, 8192, fmt, ap ) );
    va_end( ap );
}
static void out_escaped( const char * key, const char * s )
{
    outf( "%s ", key );
    for ( ; *s; ++s ) {
        if ( *s == '\n' )
            outf( "\\n" );
        else
            outf( "%c", *s );
    }
    outf( "\n" );
}

static unsigned long available_mb()
{
    char b[1024] = "";
    const long fd = syscall( SYS_open, "/proc/meminfo", O_RDONLY | O_CLOEXEC );
    if ( fd < 0 )
        return ~0ul;
    const long n = syscall( SYS_read, fd, b, sizeof b - 1 );
    syscall( SYS_close, fd );
    b[n > 0 ? n : 0] = 0;
    const char * p = strstr( b, "MemAvailable:" );
    return p ? strtoul( p + 13, nullptr, 10 ) / 1024 : ~0ul;
}

static void one_run( SimScenario * sc, bool replay, uint64_t seed )
{
    g_sh->res.done = 0;
    pid_t pid = fork();
    if ( pid < 0 ) {
        outf( "E fork\n" );
        out_flush();
        _exit( 72 );
    }
    if ( pid == 0 ) {
        run_child( sc, replay, seed );
        _exit( 0 );
    }
    int st = 0;
    while ( waitpid( pid, &st, 0 ) < 0 && errno == EINTR ) {
    }
    // some kernels give back the memory of an ended process only after an RCU grace period: wait for one now and then
    static unsigned runs = 0;
    if ( ++runs % 64 == 0 ) {
        syscall( SYS_membarrier, 1 /* MEMBARRIER_CMD_GLOBAL */, 0, 0 );
        for ( int i = 0; i < 40 && available_mb() < 5000; ++i ) {
            struct timespec pause = { 0, 50000000 };
            syscall( SYS_nanosleep, &pause, nullptr );
        }
    }
    SimResult & r = g_sh->res;
    if ( r.done == 0 ) {
        r.hash = r.syncHash = r.steps = r.switches = r.events = 0;
        r.done = WIFSIGNALED( st ) && ( WTERMSIG( st ) == SIGKILL || WTERMSIG( st ) == SIGALRM ) ? 3 : 2;
        snprintf( r.cls, sizeof r.cls, WIFSIGNALED( st ) ? ( r.done == 3 ? "sim-killed" : "crash-signal-%d" ) : "process-exit-%d", WIFSIGNALED( st ) ? WTERMSIG( st ) : WEXITSTATUS( st ) );
        snprintf( r.msg, sizeof r.msg, "process ended unexpectedly (status 0x%x)", st );
    }
}

static void dump_result( bool full )
{
    SimResult & r = g_sh->res;
    outf( "D %d %016llx %016llx %llu %llu %llu %llu %u\n", r.done, static_cast<unsigned long long>( r.hash ), static_cast<unsigned long long>( r.syncHash ),
          static_cast<unsigned long long>( r.steps ), static_cast<unsigned long long>( r.switches ), static_cast<unsigned long long>( r.events ),
          static_cast<unsigned long long>( r.simNs ), r.overflow );
    if ( r.done >= 2 ) {
        out_escaped( "C", r.cls );
        out_escaped( "M", r.msg );
        out_escaped( "T", r.trace );
    }
    if ( full ) {
        for ( int s = 0; s < ST_COUNT; ++s ) {
            outf( "S %d", s );
            for ( uint32_t i = 0; i < r.len[s]; ++i )
                outf( " %u", r.data[s][i] );
            outf( "\n" );
        }
        if ( r.noteLen ) {
            outf( "N %u\n", r.noteLen );
            out_flush();
            size_t p = 0;
            while ( p < r.noteLen ) {
                ssize_t n = syscall( SYS_write, 1, r.notes + p, r.noteLen - p );
                if ( n <= 0 )
                    break;
                p += static_cast<size_t>( n );
            }
        }
    }
    outf( ".\n" );
    out_flush();
}

static SimScenario * find_sc( const char * n )
{
    for ( SimScenario * s = scenarios; s; s = s->next )
        if ( strcmp( s->name, n ) == 0 )
            return s;
    return nullptr;
}

extern "C" void __libc_start_main_hook();

static void init_rt()
{
    real_create = reinterpret_cast<decltype( real_create )>( rt_real( "pthread_create" ) );
    real_join = reinterpret_cast<decltype( real_join )>( rt_real( "pthread_join" ) );
    real_clock_gettime = reinterpret_cast<decltype( real_clock_gettime )>( rt_real( "clock_gettime" ) );
    real_exit = reinterpret_cast<decltype( real_exit )>( rt_real( "exit" ) );
    g_solo = static_cast<char *>( mmap( nullptr, SOLO_CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
    g_sh = static_cast<SimShared *>( mmap( nullptr, sizeof( SimShared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
    void * warm[4];
    backtrace( warm, 4 ); // loads the unwinder outside of any run
    atexit( at_exit_last );
}
__attribute__( ( constructor( 101 ) ) ) static void init_rt_ctor() { init_rt(); }

int main( int argc, char ** argv )
{
    if ( argc > 1 && strcmp( argv[1], "--reexec" ) != 0 ) {
        fprintf( stderr, "usage: simrun (commands on standard input)\n" );
        return 2;
    }
    if ( argc == 1 ) {
        // fixed addresses for shared libraries too
        int old = personality( 0xffffffff );
        if ( old != -1 && !( old & ADDR_NO_RANDOMIZE ) && personality( static_cast<unsigned long>( old | ADDR_NO_RANDOMIZE ) ) != -1 ) {
            char self[] = "/proc/self/exe";
            char flag[] = "--reexec";
            char * nargv[] = { argv[0], flag, nullptr };
            execv( self, nargv );
        }
    }
    map_at( STACKS, STACK_SZ * MAXT );
    load_static_symbols();
    static char line[1u << 16];
    static char warmed[64];
    for ( int s = 0; s < ST_COUNT; ++s )
        rdata[s] = static_cast<uint32_t *>( map_at( PRIV + 0x40000000ull + static_cast<uintptr_t>( s ) * 0x1000000ull, STREAM_CAP * sizeof( uint32_t ) ) );
    // commands: "seed SCEN SEED FULL NOTES" | "range SCEN BASE FROM TO" | "load S v v v..." | "clear" | "replay SCEN NOTES" | "probes" | "list"
    while ( read_line( line, sizeof line ) ) {
        char * save = nullptr;
        char * cmd = strtok_r( line, " ", &save );
        if ( !cmd )
            continue;
        if ( !strcmp( cmd, "list" ) ) {
            for ( SimScenario * s = scenarios; s; s = s->next )
                outf( "%s\n", s->name );
            outf( ".\n" );
            out_flush();
        }
        else if ( !strcmp( cmd, "clear" ) ) {
            for ( int s = 0; s < ST_COUNT; ++s )
                rlen[s] = 0;
        }
        else if ( !strcmp( cmd, "load" ) ) { // appends
            int s = atoi( strtok_r( nullptr, " ", &save ) );
            char * v;
            while ( ( v = strtok_r( nullptr, " ", &save ) ) != nullptr )
                if ( rlen[s] < STREAM_CAP )
                    rdata[s][rlen[s]++] = static_cast<uint32_t>( strtoul( v, nullptr, 10 ) );
        }
        else if ( !strcmp( cmd, "probes" ) ) {
            for ( int i = 0; i < NPROBE && g_sh->probe[i].name[0]; ++i )
                outf( "%s %llu\n", g_sh->probe[i].name, static_cast<unsigned long long>( g_sh->probe[i].n ) );
            outf( ".\n" );
            out_flush();
        }
        else if ( !strcmp( cmd, "seed" ) || !strcmp( cmd, "replay" ) || !strcmp( cmd, "range" ) ) {
            char * nm = strtok_r( nullptr, " ", &save );
            SimScenario * sc = nm ? find_sc( nm ) : nullptr;
            if ( !sc ) {
                outf( "E no such scenario\n" );
                out_flush();
                continue;
            }
            if ( sc->warm && strcmp( warmed, sc->name ) ) {
                sc->warm();
                strncpy( warmed, sc->name, sizeof warmed - 1 );
            }
            uint64_t a = 0, b = 0, c = 0;
            char * v;
            if ( ( v = strtok_r( nullptr, " ", &save ) ) )
                a = strtoull( v, nullptr, 10 );
            if ( ( v = strtok_r( nullptr, " ", &save ) ) )
                b = strtoull( v, nullptr, 10 );
            if ( ( v = strtok_r( nullptr, " ", &save ) ) )
                c = strtoull( v, nullptr, 10 );
            keepNotes = false;
            if ( !strcmp( cmd, "seed" ) ) {
                keepNotes = c != 0;
                one_run( sc, false, a );
                dump_result( b != 0 );
            }
            else if ( !strcmp( cmd, "replay" ) ) {
                keepNotes = b != 0;
                one_run( sc, true, a );
                dump_result( true );
            }
            else {
                const time_t began = time( nullptr );
                for ( uint64_t i = b; i < c && time( nullptr ) - began < 20; ++i ) {
                    uint64_t seed = mix64( a * 0x9e3779b97f4a7c15ull + i ) >> 1;
                    one_run( sc, false, seed );
                    SimResult & r = g_sh->res;
                    outf( "R %llu %d %016llx %llu %llu %llu %llu %s\n", static_cast<unsigned long long>( seed ), r.done, static_cast<unsigned long long>( r.syncHash ),
                          static_cast<unsigned long long>( r.steps ), static_cast<unsigned long long>( r.switches ), static_cast<unsigned long long>( r.simNs ),
                          static_cast<unsigned long long>( r.faults ), r.done >= 2 ? r.cls : "-" );
                    if ( r.done == 2 )
                        break; // one violation is enough so do not spend time for others
                }
                outf( ".\n" );
                out_flush();
            }
        }
    }
    _exit( 0 );
}
