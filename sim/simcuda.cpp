// SimCUDA, see simcuda.h
#include "simcuda.h"
#include "cuda/cufft.h"
#include "rt_int.h"
#include <algorithm>
#include <deque>
#include <map>
#include <sys/mman.h>
#undef threadIdx
#undef blockIdx
#undef blockDim
#undef gridDim
#undef warpSize
#undef min
#undef max

extern char __executable_start, _end;

struct CUevent_st
{
    uint32_t id;
    int device;
    bool recorded;
    CUstream_st * stream;
    uint64_t seq;
    CUevent_st * next;
};

namespace
{
    struct Cmd
    {
        int kind = 0; // 0 kernel, 1 copy, 2 set, 3 callback, 4 transform, 5 wait for an event
        uint64_t seq = 0;
        // kernel
        const char * name = "";
        dim3 grid, block;
        void * call = nullptr;
        size_t callSize = 0;
        void ( *run )( void * ) = nullptr;
        void ( *drop )( void * ) = nullptr;
        bool grouped = false, fails = false;
        // copy and set
        uint8_t * dst = nullptr;
        const uint8_t * src = nullptr;
        size_t dpitch = 0, spitch = 0, width = 0, height = 0;
        std::vector<uint8_t> staged; // data of pageable host memory
        bool hostSrc = false, hostDst = false;
        int value = 0;
        // callback
        cudaStreamCallback_t cb = nullptr;
        void * user = nullptr;
        // transform
        int nx = 0, ny = 0, direction = 0;
        // event
        CUstream_st * other = nullptr;
        uint64_t otherSeq = 0;
    };

    const uintptr_t DEVMEM = 0x280000000000ull;
    const uintptr_t DEVSZ = 1u << 24; // of a device
    const int MAXDEV = 4;
}

struct CUstream_st
{
    uint32_t id = 0;
    int device = 0;
    bool nonBlocking = false, alive = true, isDefault = false;
    std::deque<Cmd> pending;
    bool running = false;
};

namespace
{
    struct Block
    {
        uintptr_t lo;
        size_t n;
        bool live, zombie; // released by a call which has reported a failure
        int device;
    };
    CudaConfig g_c;
    std::map<uintptr_t, Block> g_blocks; // by address
    bool g_lateFree;
    uint64_t g_usedMem[MAXDEV];
    uintptr_t g_nextAddr[MAXDEV];
    CUstream_st g_default[MAXDEV];
    std::vector<CUstream_st *> g_streams; // of a user, also destroyed ones
    std::vector<CUevent_st *> g_events;
    std::map<void *, size_t> g_pinned;
    struct Plan
    {
        bool live;
        int nx, ny, device;
        CUstream_st * stream;
    };
    std::vector<Plan> g_plans;
    uint64_t g_seq;
    int g_currentDev[MAXT];
    uint32_t g_usedDev[MAXT];
    cudaError_t g_lastErr[MAXT];

    uint64_t g_failed;
    uint32_t g_oneIn, g_failAt, g_lostAt, g_nameAt, g_asyncOneIn;
    bool g_lost, g_begun;
    const char * g_namePart;
    const char * g_lastFailed = "";

    void fatal( const char * what )
    {
        rt_die( 3, "simcuda", "%s", what );
    }

    int & dev()
    {
        const int t = sim_tid();
        return g_currentDev[t < 0 ? 0 : t];
    }
    uint32_t & used()
    {
        const int t = sim_tid();
        return g_usedDev[t < 0 ? 0 : t];
    }
    cudaError_t & lastErr()
    {
        const int t = sim_tid();
        return g_lastErr[t < 0 ? 0 : t];
    }
    cudaError_t err( cudaError_t e )
    {
        if ( e != cudaSuccess )
            lastErr() = e;
        return e;
    }

    bool fault( const char * fn )
    {
        if ( !g_simActive || !rt_faults_on() )
            return false;
        bool f = g_lost;
        if ( g_lostAt && --g_lostAt == 0 )
            f = g_lost = true;
        if ( g_failAt && --g_failAt == 0 )
            f = true;
        if ( g_nameAt && strstr( fn, g_namePart ) && --g_nameAt == 0 )
            f = true;
        if ( !f && g_oneIn )
            f = sim_chance( ST_CL, 1, g_oneIn );
        if ( f ) {
            ++g_failed;
            g_lastFailed = fn;
            char b[48];
            snprintf( b, sizeof b, "fault.%s", fn );
            sim_count( b, 1 );
            sim_note( "%s fails", fn );
        }
        return f;
    }

    struct Enter
    {
        Enter( const char * fn, const void * h )
        {
            if ( g_simActive )
                sim_sync_point( fn, h );
            rt_enter();
            if ( g_simActive )
                sim_event( fn, 0, 0 );
            if ( !g_begun )
                fatal( "a CUDA call before cuda_begin()" );
        }
        ~Enter()
        {
            rt_leave();
        }
    };
#define ENTER( h ) Enter en( __func__, h )
#define FAULT( code )                                                                                                                                \
    if ( fault( __func__ ) )                                                                                                                         \
    return err( g_lost ? cudaErrorLaunchFailure : code )

    Block * blockOf( uintptr_t a )
    {
        std::map<uintptr_t, Block>::iterator it = g_blocks.upper_bound( a );
        if ( it == g_blocks.begin() )
            return nullptr;
        --it;
        Block & b = it->second;
        return b.live && a < b.lo + b.n ? &b : nullptr;
    }
    bool isDevMem( const void * p )
    {
        return reinterpret_cast<uintptr_t>( p ) - DEVMEM < DEVSZ * MAXDEV;
    }

    // ------------------------------------------------------------------------------------------------ execution of kernels
    extern "C" void simcuda_switch( void ** save, void * to );
    asm( R"(
        .text
        .globl simcuda_switch
        .type simcuda_switch, @function
    simcuda_switch:
        pushq %rbp
        pushq %rbx
        pushq %r12
        pushq %r13
        pushq %r14
        pushq %r15
        movq %rsp, (%rdi)
        movq %rsi, %rsp
        popq %r15
        popq %r14
        popq %r13
        popq %r12
        popq %rbx
        popq %rbp
        ret
        .size simcuda_switch, .-simcuda_switch
    )" );

    const size_t FSTACK = 65536;
    const int MAXFIBER = 1024;
    struct Fiber
    {
        void * sp;
        uint8_t * stack;
        uint3 tid, bid;
        bool done, waiting;
    };
    struct Exec
    {
        const Cmd * cmd;
        int device;
        Fiber * f;
        int nf;
        int active[MAXFIBER];
        int nactive, cur;
        void * mainSp;
        const uint32_t * order;
        uint64_t items, next;
        uint64_t rng;
        uint32_t gap, meanGap;
        bool failed;
        uint64_t stopAfter;
        char error[240];
        uint64_t preempts, path;
        uintptr_t hitLo, hitHi; // last block of memory
    };
    Exec g_exec;
    Exec * X;
    Fiber g_fiber[MAXFIBER];

    uint32_t rnd( uint32_t n )
    {
        uint64_t z = ( X->rng += 0x9E3779B97F4A7C15ull );
        z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
        z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
        return uint32_t( ( z ^ ( z >> 31 ) ) % n );
    }
    uint64_t mix( uint64_t z )
    {
        z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
        z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
        return z ^ ( z >> 31 );
    }
    void switchTo( int idx )
    {
        Fiber * from = &X->f[X->active[X->cur]];
        X->cur = idx;
        Fiber * to = &X->f[X->active[idx]];
        if ( from != to )
            simcuda_switch( &from->sp, to->sp );
    }
    void toMain()
    {
        simcuda_switch( &X->f[X->active[X->cur]].sp, X->mainSp );
    }
    void locate( Fiber & f, uint64_t item ) // items are numbered block by block
    {
        const Cmd & c = *X->cmd;
        const uint64_t per = uint64_t( c.block.x ) * c.block.y * c.block.z;
        uint64_t g = item / per, l = item % per;
        f.bid.x = uint32_t( g % c.grid.x );
        g /= c.grid.x;
        f.bid.y = uint32_t( g % c.grid.y );
        f.bid.z = uint32_t( g / c.grid.y );
        f.tid.x = uint32_t( l % c.block.x );
        l /= c.block.x;
        f.tid.y = uint32_t( l % c.block.y );
        f.tid.z = uint32_t( l / c.block.y );
    }
    void fiberEnd()
    {
        Exec & x = *X;
        x.f[x.active[x.cur]].done = true;
        x.active[x.cur] = x.active[--x.nactive];
        void * dummy;
        if ( x.nactive == 0 )
            simcuda_switch( &dummy, x.mainSp );
        x.cur = x.nactive > 1 ? int( rnd( uint32_t( x.nactive ) ) ) : 0;
        simcuda_switch( &dummy, x.f[x.active[x.cur]].sp );
        abort();
    }
    void fiberMain()
    {
        Exec & x = *X;
        if ( x.cmd->grouped )
            x.cmd->run( x.cmd->call );
        else
            while ( x.next < x.items && !x.failed ) {
                if ( x.next == x.stopAfter ) {
                    x.failed = true;
                    break;
                }
                locate( x.f[x.active[x.cur]], x.order[x.next++] );
                x.cmd->run( x.cmd->call );
            }
        fiberEnd();
    }
    void start( Fiber & f )
    {
        if ( !f.stack )
            f.stack = static_cast<uint8_t *>( mmap( nullptr, FSTACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
        const uintptr_t top = ( reinterpret_cast<uintptr_t>( f.stack ) + FSTACK ) & ~uintptr_t( 15 );
        void ** s = reinterpret_cast<void **>( top ) - 2;
        *s = reinterpret_cast<void *>( &fiberMain ); // at entry the stack is 8 modulo 16
        s -= 6;
        for ( int i = 0; i < 6; ++i )
            s[i] = nullptr;
        f.sp = s;
        f.done = f.waiting = false;
    }
    void maybePreempt()
    {
        Exec & x = *X;
        if ( x.meanGap && x.nactive > 1 && --x.gap == 0 ) {
            x.gap = 1 + rnd( 2 * x.meanGap );
            ++x.preempts;
            const int to = int( rnd( uint32_t( x.nactive ) ) );
            x.path = mix( x.path ^ ( uint64_t( to ) << 32 ) ^ x.next );
            switchTo( to );
        }
    }
    // of code in kernels; called by the hooks of instrumented code
    void kernelAccess( uintptr_t a, size_t n, bool wr )
    {
        Exec & x = *X;
        const Fiber & f = x.f[x.active[x.cur]];
        const uintptr_t s = reinterpret_cast<uintptr_t>( f.stack );
        if ( a - s < FSTACK )
            return; // nobody else can see it
        bool ok = a >= x.hitLo && a + n <= x.hitHi;
        if ( !ok ) {
            if ( a - DEVMEM < DEVSZ * MAXDEV ) {
                const Block * b = blockOf( a );
                if ( b && b->device == x.device && a + n <= b->lo + b->n ) {
                    ok = true;
                    x.hitLo = b->lo;
                    x.hitHi = b->lo + b->n;
                }
            }
            else {
                const uintptr_t c = reinterpret_cast<uintptr_t>( x.cmd->call );
                if ( a >= c && a + n <= c + x.cmd->callSize )
                    return;
                ok = a >= reinterpret_cast<uintptr_t>( &__executable_start ) && a + n <= reinterpret_cast<uintptr_t>( &_end );
            }
        }
        if ( !ok ) {
            const Block * b = a - DEVMEM < DEVSZ * MAXDEV ? blockOf( a ) : nullptr;
            snprintf( x.error, sizeof x.error, "kernel %s: thread (%u,%u,%u) of block (%u,%u,%u) %s %s", x.cmd->name, f.tid.x, f.tid.y, f.tid.z, f.bid.x, f.bid.y, f.bid.z,
                      wr ? "writes" : "reads",
                      a - DEVMEM >= DEVSZ * MAXDEV ? "memory of the host" : ( b && b->device != x.device ? "memory of another device" : "memory outside of any allocated memory" ) );
            toMain();
        }
        maybePreempt();
    }
    void kernelHook( uintptr_t a, size_t n, bool wr )
    {
        kernelAccess( a, n, wr );
    }
    void runActive()
    {
        Exec & x = *X;
        if ( x.nactive == 0 )
            return;
        x.cur = x.nactive > 1 ? int( rnd( uint32_t( x.nactive ) ) ) : 0;
        g_accessHook = kernelHook;
        simcuda_switch( &x.mainSp, x.f[x.active[x.cur]].sp );
        g_accessHook = nullptr;
    }

    bool runKernel( Cmd & c, int device ) // false: it has failed
    {
        Exec & x = g_exec;
        x.cmd = &c;
        x.device = device;
        x.error[0] = 0;
        x.failed = false;
        x.preempts = x.path = x.next = 0;
        x.nactive = 0;
        x.meanGap = x.gap = 0;
        x.hitLo = x.hitHi = 0;
        const uint32_t order = g_c.order;
        x.rng = ( order >= 2 ? sim_draw( ST_CL, 65536 ) : 0 ) * 0x632BE59BD9B4E019ull + 12345;
        X = &x;
        const uint64_t per = uint64_t( c.block.x ) * c.block.y * c.block.z, groups = uint64_t( c.grid.x ) * c.grid.y * c.grid.z;
        x.items = groups * per;
        if ( x.items > ( 1u << 22 ) )
            fatal( "too many threads of a kernel" );
        x.stopAfter = c.fails ? rnd( uint32_t( x.items ) + 1 ) : ~uint64_t( 0 );
        x.f = g_fiber;
        if ( order == 3 ) {
            static const uint32_t gaps[] = { 1, 2, 4, 9 };
            x.meanGap = gaps[rnd( 4 )];
            x.gap = 1 + rnd( x.meanGap );
        }
        std::vector<uint32_t> ord( c.grouped ? groups : x.items );
        for ( size_t i = 0; i < ord.size(); ++i )
            ord[i] = uint32_t( order == 1 ? ord.size() - 1 - i : i );
        if ( order >= 2 )
            for ( size_t i = ord.size(); i > 1; --i )
                std::swap( ord[i - 1], ord[rnd( uint32_t( i ) )] );
        x.order = ord.data();
        uint64_t jumps = 0;
        for ( size_t i = 0; i < ord.size(); ++i ) {
            jumps += ord[i] != ( i ? ord[i - 1] + 1 : 0 );
            x.path = mix( x.path ^ ord[i] );
        }
        if ( c.grouped ) {
            if ( per > uint64_t( MAXFIBER ) )
                fatal( "too many threads in a block" );
            for ( size_t g = 0; g < groups && !x.error[0]; ++g ) {
                if ( c.fails && g * per >= x.stopAfter ) {
                    x.failed = true;
                    break;
                }
                x.nf = x.nactive = int( per );
                for ( size_t i = 0; i < per; ++i ) {
                    start( x.f[i] );
                    locate( x.f[i], uint64_t( ord[g] ) * per + i );
                    x.active[i] = int( i );
                }
                for ( ;; ) { // rounds between barriers
                    runActive();
                    if ( x.error[0] )
                        break;
                    int waiting = 0;
                    for ( int i = 0; i < x.nf; ++i )
                        waiting += x.f[i].waiting;
                    if ( waiting == 0 )
                        break;
                    x.nactive = 0;
                    for ( int i = 0; i < x.nf; ++i ) {
                        if ( x.f[i].waiting )
                            x.active[x.nactive++] = i;
                        x.f[i].waiting = false;
                    }
                }
            }
        }
        else {
            const int want = order == 3 ? int( 2 + rnd( 7 ) ) : 1;
            x.nf = x.nactive = int( std::min<uint64_t>( uint64_t( want ), std::max<uint64_t>( x.items, 1 ) ) );
            for ( int i = 0; i < x.nf; ++i ) {
                start( x.f[i] );
                x.active[i] = i;
            }
            runActive();
        }
        X = nullptr;
        rt_hash( x.rng, x.preempts );
        rt_order( x.path, x.preempts + jumps );
        sim_count( "work.items", x.items );
        if ( x.preempts )
            sim_count( "work.preemptions", x.preempts );
        sim_count( "work.kernels", 1 );
        if ( x.error[0] )
            sim_fail( "device-memory", "%s", x.error );
        return !c.fails;
    }

    // ------------------------------------------------------------------------------------------------ cuFFT
    void dft( std::vector<double> & re, std::vector<double> & im, size_t base, size_t step, size_t n, int sign )
    {
        std::vector<double> a( n ), b( n );
        for ( size_t k = 0; k < n; ++k ) {
            double sr = 0, si = 0;
            for ( size_t j = 0; j < n; ++j ) {
                const double w = sign * 6.283185307179586476925 * double( ( j * k ) % n ) / double( n ), c = cos( w ), s = sin( w );
                const double r = re[base + j * step], i = im[base + j * step];
                sr += r * c - i * s;
                si += r * s + i * c;
            }
            a[k] = sr;
            b[k] = si;
        }
        for ( size_t k = 0; k < n; ++k ) {
            re[base + k * step] = a[k];
            im[base + k * step] = b[k];
        }
    }
    void transform( const Cmd & c )
    {
        const size_t rows = size_t( c.nx ), cols = size_t( c.ny ), n = rows * cols;
        const float * in = reinterpret_cast<const float *>( c.src );
        float * out = reinterpret_cast<float *>( c.dst );
        std::vector<double> re( n ), im( n );
        for ( size_t i = 0; i < n; ++i ) {
            re[i] = in[2 * i];
            im[i] = in[2 * i + 1];
        }
        for ( size_t r = 0; r < rows; ++r )
            dft( re, im, r * cols, 1, cols, c.direction );
        for ( size_t k = 0; k < cols; ++k )
            dft( re, im, k, cols, rows, c.direction );
        for ( size_t i = 0; i < n; ++i ) {
            out[2 * i] = float( re[i] );
            out[2 * i + 1] = float( im[i] );
        }
    }

    // ------------------------------------------------------------------------------------------------ streams
    // work which must be completed before the first one of a stream
    CUstream_st * obstacle( CUstream_st * s )
    {
        const Cmd & c = s->pending.front();
        if ( c.kind == 5 && !c.other->pending.empty() && c.other->pending.front().seq <= c.otherSeq )
            return c.other;
        if ( s->isDefault ) {
            for ( CUstream_st * o : g_streams )
                if ( o->device == s->device && !o->nonBlocking && !o->pending.empty() && o->pending.front().seq < c.seq )
                    return o;
        }
        else if ( !s->nonBlocking ) {
            CUstream_st * o = &g_default[s->device];
            if ( !o->pending.empty() && o->pending.front().seq < c.seq )
                return o;
        }
        return nullptr;
    }

    void runFront( CUstream_st * s )
    {
        for ( CUstream_st * o; ( o = obstacle( s ) ) != nullptr; )
            runFront( o );
        s->running = true;
        Cmd c = std::move( s->pending.front() );
        s->pending.pop_front();
        bool ok = true;
        if ( !g_lost )
            switch ( c.kind ) {
            case 0:
                ok = runKernel( c, s->device );
                break;
            case 1: {
                const uint8_t * src = c.staged.empty() ? c.src : c.staged.data();
                for ( size_t y = 0; y < c.height; ++y ) {
                    if ( c.hostDst )
                        rt_access( c.dst + y * c.dpitch, c.width, true, false, "transfer from a device" );
                    if ( c.hostSrc && c.staged.empty() )
                        rt_access( src + y * c.spitch, c.width, false, false, "transfer to a device" );
                    memmove( c.dst + y * c.dpitch, src + y * c.spitch, c.width );
                }
                break;
            }
            case 2:
                for ( size_t y = 0; y < c.height; ++y )
                    memset( c.dst + y * c.dpitch, c.value, c.width );
                break;
            case 3:
                rt_leave();
                c.cb( s->isDefault ? nullptr : s, cudaSuccess, c.user );
                rt_enter();
                break;
            case 4:
                transform( c );
                break;
            default:
                break;
            }
        if ( c.kind == 0 ) {
            c.drop( c.call );
            free( c.call );
        }
        s->running = false;
        if ( !ok ) {
            ++g_failed;
            g_lost = true;
            g_lastFailed = "a kernel";
            sim_count( "fault.kernel-execution", 1 );
            sim_note( "kernel %s fails while it is executed", c.name );
        }
    }
    void finish( CUstream_st * s )
    {
        while ( !s->pending.empty() )
            runFront( s );
    }
    void finishDevice( int d )
    {
        finish( &g_default[d] );
        for ( size_t i = 0; i < g_streams.size(); ++i )
            if ( g_streams[i]->device == d )
                finish( g_streams[i] );
    }
    void progress() // devices work on their own
    {
        if ( !g_simActive || g_c.eager == 0 )
            return;
        for ( ;; ) {
            CUstream_st * can[64];
            uint32_t n = 0;
            for ( int d = 0; d < g_c.devices; ++d )
                if ( !g_default[d].pending.empty() && !g_default[d].running && n < 64 )
                    can[n++] = &g_default[d];
            for ( CUstream_st * s : g_streams )
                if ( !s->pending.empty() && !s->running && n < 64 )
                    can[n++] = s;
            if ( n == 0 || !sim_chance( ST_CL, g_c.eager, 8 ) )
                return;
            runFront( can[n > 1 ? sim_draw( ST_CL, n ) : 0] );
        }
    }
    void enqueue( CUstream_st * s, Cmd && c )
    {
        c.seq = ++g_seq;
        s->pending.push_back( std::move( c ) );
        if ( s->pending.size() > 1 )
            sim_count( "work.queued", 1 );
        for ( CUstream_st * o : g_streams )
            if ( o != s && !o->pending.empty() ) {
                sim_count( "work.concurrent-streams", 1 );
                break;
            }
        progress();
    }

    CUstream_st * streamOf( cudaStream_t h, const char * fn )
    {
        if ( h == nullptr )
            return &g_default[dev()];
        for ( CUstream_st * s : g_streams )
            if ( s == h ) {
                if ( !s->alive )
                    sim_fail( "cuda-released-handle", "%s: the stream has already been destroyed", fn );
                return s;
            }
        sim_fail( "cuda-invalid-handle", "%s: the argument is not a stream", fn );
    }

    void checkDevice( const void * p, size_t n, const char * fn )
    {
        const uintptr_t a = reinterpret_cast<uintptr_t>( p );
        if ( n == 0 )
            return;
        const Block * b = isDevMem( p ) ? blockOf( a ) : nullptr;
        if ( !b || a + n > b->lo + b->n )
            sim_fail( "device-memory", "%s: %zu bytes %s", fn, n, isDevMem( p ) ? "which are outside of any allocated memory of a device" : "of the host instead of a device" );
    }
    void checkHost( const void * p, size_t n, bool wr, const char * fn )
    {
        if ( n == 0 )
            return;
        if ( isDevMem( p ) )
            sim_fail( "device-memory", "%s: memory of a device instead of the host", fn );
        rt_access( p, n, wr, false, fn );
    }

    cudaError_t copy( const char * fn, void * dst, size_t dpitch, const void * src, size_t spitch, size_t width, size_t height, int kind, CUstream_st * s, bool async )
    {
        if ( width == 0 || height == 0 )
            return cudaSuccess;
        if ( dst == nullptr || src == nullptr )
            return err( cudaErrorInvalidValue );
        if ( dpitch < width || spitch < width )
            return err( cudaErrorInvalidPitchValue );
        if ( kind == cudaMemcpyDefault )
            kind = ( isDevMem( src ) ? 2 : 0 ) + ( isDevMem( dst ) ? 1 : 0 );
        const size_t dn = dpitch * ( height - 1 ) + width, sn = spitch * ( height - 1 ) + width;
        const bool toDevice = kind == cudaMemcpyHostToDevice || kind == cudaMemcpyDeviceToDevice;
        const bool fromDevice = kind == cudaMemcpyDeviceToHost || kind == cudaMemcpyDeviceToDevice;
        if ( fromDevice )
            checkDevice( src, sn, fn );
        else
            for ( size_t y = 0; y < height; ++y )
                checkHost( static_cast<const uint8_t *>( src ) + y * spitch, width, false, fn );
        if ( toDevice )
            checkDevice( dst, dn, fn );
        else
            for ( size_t y = 0; y < height; ++y )
                checkHost( static_cast<uint8_t *>( dst ) + y * dpitch, width, true, fn );
        Cmd c;
        c.kind = 1;
        c.dst = static_cast<uint8_t *>( dst );
        c.src = static_cast<const uint8_t *>( src );
        c.dpitch = dpitch;
        c.spitch = spitch;
        c.width = width;
        c.height = height;
        c.hostSrc = !fromDevice;
        c.hostDst = !toDevice;
        bool pinned = false;
        for ( const std::pair<void * const, size_t> & p : g_pinned ) {
            const uintptr_t lo = reinterpret_cast<uintptr_t>( p.first ), a = reinterpret_cast<uintptr_t>( c.hostSrc ? src : dst );
            pinned = pinned || ( a >= lo && a < lo + p.second );
        }
        if ( c.hostSrc && !pinned ) {
            finish( s ); // then the data is staged
            if ( !g_lost )
                c.staged.assign( c.src, c.src + sn );
        }
        const bool wait = ( c.hostDst && ( !async || !pinned ) ) || ( c.hostSrc && !async && pinned );
        enqueue( s, std::move( c ) );
        if ( wait )
            finish( s );
        return g_lost ? err( cudaErrorLaunchFailure ) : cudaSuccess;
    }

    cudaError_t fill( const char * fn, void * p, size_t pitch, int value, size_t width, size_t height, CUstream_st * s )
    {
        if ( width == 0 || height == 0 )
            return cudaSuccess;
        checkDevice( p, pitch * ( height - 1 ) + width, fn );
        Cmd c;
        c.kind = 2;
        c.dst = static_cast<uint8_t *>( p );
        c.dpitch = pitch;
        c.width = width;
        c.height = height;
        c.value = value;
        enqueue( s, std::move( c ) );
        return g_lost ? err( cudaErrorLaunchFailure ) : cudaSuccess;
    }

    cudaError_t lost()
    {
        return g_lost ? err( cudaErrorLaunchFailure ) : cudaSuccess;
    }
}

// ---------------------------------------------------------------------------------------------------- inside of kernels
extern "C" {
uint3 simcuda_index( int what )
{
    const Fiber & f = X->f[X->active[X->cur]];
    switch ( what ) {
    case 0:
        return f.tid;
    case 1:
        return f.bid;
    case 2:
        return uint3{ X->cmd->block.x, X->cmd->block.y, X->cmd->block.z };
    default:
        return uint3{ X->cmd->grid.x, X->cmd->grid.y, X->cmd->grid.z };
    }
}
void simcuda_barrier()
{
    Exec & x = *X;
    if ( !x.cmd->grouped )
        fatal( "a barrier in a kernel whose source file does not look like it has one" );
    x.f[x.active[x.cur]].waiting = true;
    Fiber * me = &x.f[x.active[x.cur]];
    x.active[x.cur] = x.active[--x.nactive];
    if ( x.nactive == 0 )
        simcuda_switch( &me->sp, x.mainSp );
    else {
        x.cur = int( rnd( uint32_t( x.nactive ) ) );
        simcuda_switch( &me->sp, x.f[x.active[x.cur]].sp );
    }
}
void simcuda_atomic( void * p, size_t n )
{
    kernelAccess( reinterpret_cast<uintptr_t>( p ), n, true );
}

void simcuda_launch( const char * name, dim3 grid, dim3 block, size_t shared, cudaStream_t stream, void * call, size_t size, void ( *run )( void * ), void ( *drop )( void * ),
                     bool grouped )
{
    ENTER( nullptr );
    if ( fault( "kernel-launch" ) ) {
        err( cudaErrorLaunchFailure );
        return;
    }
    CUstream_st * s = streamOf( stream, "kernel launch" );
    const int d = dev();
    const uint64_t per = uint64_t( block.x ) * block.y * block.z;
    if ( per == 0 || per > g_c.threads[d] || block.x > g_c.dim[d][0] || block.y > g_c.dim[d][1] || block.z > g_c.dim[d][2] || grid.x == 0 || grid.y == 0 || grid.z == 0
         || grid.x > 2147483647u || grid.y > 65535 || grid.z > 65535 || shared > 49152 ) {
        err( cudaErrorInvalidConfiguration );
        return;
    }
    if ( s->device != d ) {
        err( cudaErrorInvalidResourceHandle );
        return;
    }
    Cmd c;
    c.kind = 0;
    c.name = name;
    c.grid = grid;
    c.block = block;
    c.call = malloc( size );
    memcpy( c.call, call, size );
    c.callSize = size;
    c.run = run;
    c.drop = drop;
    c.grouped = grouped;
    c.fails = g_asyncOneIn && rt_faults_on() && sim_chance( ST_CL, 1, g_asyncOneIn );
    enqueue( s, std::move( c ) );
}

// ---------------------------------------------------------------------------------------------------- devices
cudaError_t cudaGetDeviceCount( int * count )
{
    ENTER( nullptr );
    FAULT( cudaErrorInitializationError );
    *count = g_c.devices;
    return g_c.devices ? cudaSuccess : err( cudaErrorNoDevice );
}
cudaError_t cudaGetDevice( int * device )
{
    ENTER( nullptr );
    FAULT( cudaErrorUnknown );
    *device = dev();
    return cudaSuccess;
}
cudaError_t cudaSetDevice( int device )
{
    ENTER( nullptr );
    if ( device < 0 || device >= g_c.devices )
        return err( cudaErrorInvalidDevice );
    // a device which works for this thread already needs no new resources
    if ( device >= 0 && ( ( used() | 1u ) >> device & 1 ) == 0 )
        FAULT( cudaErrorUnknown );
    dev() = device;
    used() |= 1u << device;
    return cudaSuccess;
}
cudaError_t cudaGetDeviceProperties( cudaDeviceProp * p, int d )
{
    ENTER( nullptr );
    FAULT( cudaErrorUnknown );
    if ( d < 0 || d >= g_c.devices )
        return err( cudaErrorInvalidDevice );
    memset( p, 0, sizeof *p );
    snprintf( p->name, sizeof p->name, "Simulated device %d", d );
    p->totalGlobalMem = g_c.capacity;
    p->sharedMemPerBlock = 49152;
    p->warpSize = 32;
    p->maxThreadsPerBlock = int( g_c.threads[d] );
    for ( int i = 0; i < 3; ++i ) {
        p->maxThreadsDim[i] = int( g_c.dim[d][i] );
        p->maxGridSize[i] = i == 0 ? 2147483647 : 65535;
    }
    p->major = 7;
    p->minor = d;
    p->multiProcessorCount = 2;
    p->asyncEngineCount = 2;
    p->concurrentKernels = 1;
    return cudaSuccess;
}
cudaError_t cudaMemGetInfo( size_t * fr, size_t * total )
{
    ENTER( nullptr );
    FAULT( cudaErrorUnknown );
    *fr = g_c.capacity - g_usedMem[dev()];
    *total = g_c.capacity;
    return cudaSuccess;
}
cudaError_t cudaDeviceSynchronize( void )
{
    ENTER( nullptr );
    FAULT( cudaErrorUnknown );
    finishDevice( dev() );
    return lost();
}
cudaError_t cudaGetLastError( void )
{
    ENTER( nullptr );
    const cudaError_t e = lastErr();
    lastErr() = cudaSuccess;
    return e;
}
cudaError_t cudaPeekAtLastError( void )
{
    ENTER( nullptr );
    return lastErr();
}
const char * cudaGetErrorString( cudaError_t )
{
    return "simulated failure";
}
const char * cudaGetErrorName( cudaError_t )
{
    return "simulated failure";
}

// ---------------------------------------------------------------------------------------------------- memory
cudaError_t simcuda_malloc( void ** p, size_t n )
{
    const char * const __func = "cudaMalloc";
    Enter en( __func, nullptr );
    if ( fault( __func ) )
        return err( g_lost ? cudaErrorLaunchFailure : cudaErrorMemoryAllocation );
    *p = nullptr;
    if ( n == 0 )
        return cudaSuccess;
    const int d = dev();
    if ( n > g_c.capacity - g_usedMem[d] ) {
        ++g_failed;
        sim_count( "fault.device-memory-exhausted", 1 );
        return err( cudaErrorMemoryAllocation );
    }
    uintptr_t a = 0;
    if ( g_c.reuse )
        for ( std::pair<const uintptr_t, Block> & b : g_blocks )
            if ( !b.second.live && !b.second.zombie && b.second.device == d && ( b.second.n + 255 ) / 256 == ( n + 255 ) / 256 ) {
                a = b.first;
                break;
            }
    if ( !a ) {
        a = g_nextAddr[d];
        g_nextAddr[d] += ( n + 255 ) / 256 * 256 + 256;
        if ( g_nextAddr[d] > DEVMEM + DEVSZ * uintptr_t( d + 1 ) )
            fatal( "no addresses for memory of a device" );
    }
    g_blocks[a] = Block{ a, n, true, false, d };
    g_usedMem[d] += n;
    uint8_t * q = reinterpret_cast<uint8_t *>( a );
    for ( size_t i = 0; i < n; ++i )
        q[i] = g_c.junk ? g_c.junk : uint8_t( mix( a + i ) );
    *p = q;
    return cudaSuccess;
}
cudaError_t cudaFree( void * p )
{
    ENTER( p );
    if ( p == nullptr )
        return cudaSuccess;
    std::map<uintptr_t, Block>::iterator it = g_blocks.find( reinterpret_cast<uintptr_t>( p ) );
    if ( g_lateFree && ( it == g_blocks.end() || !it->second.live ) ) {
        it = g_blocks.upper_bound( reinterpret_cast<uintptr_t>( p ) );
        if ( it != g_blocks.begin() ) {
            --it;
            if ( !it->second.live && reinterpret_cast<uintptr_t>( p ) - it->first < it->second.n ) {
                sim_count( "probe.late-release", 1 );
                return err( cudaErrorInvalidDevicePointer );
            }
        }
        it = g_blocks.find( reinterpret_cast<uintptr_t>( p ) );
    }
    if ( it == g_blocks.end() )
        sim_fail( "cuda-invalid-free", "cudaFree: this is not the address of a block of device memory" );
    Block & b = it->second;
    if ( !b.live && b.zombie ) {
        b.zombie = false;
        return err( cudaErrorInvalidDevicePointer );
    }
    if ( !b.live )
        sim_fail( "cuda-double-free", "cudaFree: the memory has already been released" );
    finishDevice( b.device );
    const bool f = fault( __func__ );
    b.live = false;
    b.zombie = f;
    g_usedMem[b.device] -= b.n;
    return f ? err( g_lost ? cudaErrorLaunchFailure : cudaErrorUnknown ) : lost();
}
cudaError_t simcuda_mallocHost( void ** p, size_t n )
{
    const char * const __func = "cudaMallocHost";
    Enter en( __func, nullptr );
    if ( fault( __func ) )
        return err( g_lost ? cudaErrorLaunchFailure : cudaErrorMemoryAllocation );
    *p = malloc( n );
    memset( *p, g_c.junk, n );
    g_pinned[*p] = n;
    return cudaSuccess;
}
cudaError_t cudaFreeHost( void * p )
{
    ENTER( p );
    if ( p == nullptr )
        return cudaSuccess;
    std::map<void *, size_t>::iterator it = g_pinned.find( p );
    if ( it == g_pinned.end() )
        sim_fail( "cuda-invalid-free", "cudaFreeHost: this is not pinned memory or it has already been released" );
    for ( int d = 0; d < g_c.devices; ++d )
        finishDevice( d );
    const bool f = fault( __func__ );
    g_pinned.erase( it );
    free( p );
    return f ? err( cudaErrorUnknown ) : lost();
}
cudaError_t cudaMemcpy( void * dst, const void * src, size_t n, cudaMemcpyKind kind )
{
    ENTER( dst );
    FAULT( cudaErrorUnknown );
    return copy( "cudaMemcpy", dst, n, src, n, n, 1, kind, streamOf( nullptr, __func__ ), false );
}
cudaError_t cudaMemcpyAsync( void * dst, const void * src, size_t n, cudaMemcpyKind kind, cudaStream_t stream )
{
    ENTER( dst );
    FAULT( cudaErrorUnknown );
    return copy( "cudaMemcpyAsync", dst, n, src, n, n, 1, kind, streamOf( stream, __func__ ), true );
}
cudaError_t cudaMemcpy2D( void * dst, size_t dp, const void * src, size_t sp, size_t w, size_t h, cudaMemcpyKind kind )
{
    ENTER( dst );
    FAULT( cudaErrorUnknown );
    return copy( "cudaMemcpy2D", dst, dp, src, sp, w, h, kind, streamOf( nullptr, __func__ ), false );
}
cudaError_t cudaMemcpy2DAsync( void * dst, size_t dp, const void * src, size_t sp, size_t w, size_t h, cudaMemcpyKind kind, cudaStream_t stream )
{
    ENTER( dst );
    FAULT( cudaErrorUnknown );
    return copy( "cudaMemcpy2DAsync", dst, dp, src, sp, w, h, kind, streamOf( stream, __func__ ), true );
}
cudaError_t cudaMemset( void * p, int v, size_t n )
{
    ENTER( p );
    FAULT( cudaErrorUnknown );
    return fill( "cudaMemset", p, n, v, n, 1, streamOf( nullptr, __func__ ) );
}
cudaError_t cudaMemsetAsync( void * p, int v, size_t n, cudaStream_t stream )
{
    ENTER( p );
    FAULT( cudaErrorUnknown );
    return fill( "cudaMemsetAsync", p, n, v, n, 1, streamOf( stream, __func__ ) );
}
cudaError_t cudaMemset2D( void * p, size_t pitch, int v, size_t w, size_t h )
{
    ENTER( p );
    FAULT( cudaErrorUnknown );
    return fill( "cudaMemset2D", p, pitch, v, w, h, streamOf( nullptr, __func__ ) );
}

// ---------------------------------------------------------------------------------------------------- streams and events
cudaError_t cudaStreamCreateWithFlags( cudaStream_t * stream, unsigned int flags )
{
    ENTER( nullptr );
    FAULT( cudaErrorUnknown );
    CUstream_st * s = new CUstream_st;
    s->device = dev();
    s->nonBlocking = ( flags & cudaStreamNonBlocking ) != 0;
    s->id = uint32_t( g_streams.size() + 1 );
    g_streams.push_back( s );
    *stream = s;
    return cudaSuccess;
}
cudaError_t cudaStreamCreate( cudaStream_t * stream )
{
    return cudaStreamCreateWithFlags( stream, cudaStreamDefault );
}
cudaError_t cudaStreamDestroy( cudaStream_t stream )
{
    ENTER( stream );
    if ( stream == nullptr )
        return err( cudaErrorInvalidResourceHandle );
    CUstream_st * s = streamOf( stream, __func__ );
    const bool f = fault( __func__ );
    s->alive = false; // pending work will still be executed
    return f ? err( cudaErrorUnknown ) : lost();
}
cudaError_t cudaStreamSynchronize( cudaStream_t stream )
{
    ENTER( stream );
    FAULT( cudaErrorUnknown );
    finish( streamOf( stream, __func__ ) );
    return lost();
}
cudaError_t cudaStreamQuery( cudaStream_t stream )
{
    ENTER( stream );
    FAULT( cudaErrorUnknown );
    CUstream_st * s = streamOf( stream, __func__ );
    progress();
    if ( g_lost )
        return lost();
    return s->pending.empty() ? cudaSuccess : err( cudaErrorNotReady );
}
cudaError_t cudaStreamAddCallback( cudaStream_t stream, cudaStreamCallback_t cb, void * user, unsigned int )
{
    ENTER( stream );
    FAULT( cudaErrorUnknown );
    Cmd c;
    c.kind = 3;
    c.cb = cb;
    c.user = user;
    enqueue( streamOf( stream, __func__ ), std::move( c ) );
    return cudaSuccess;
}
cudaError_t cudaEventCreateWithFlags( cudaEvent_t * event, unsigned int )
{
    ENTER( nullptr );
    FAULT( cudaErrorUnknown );
    CUevent_st * e = new CUevent_st();
    e->device = dev();
    g_events.push_back( e );
    *event = e;
    return cudaSuccess;
}
cudaError_t cudaEventCreate( cudaEvent_t * event )
{
    return cudaEventCreateWithFlags( event, 0 );
}
static CUevent_st * eventOf( cudaEvent_t e, const char * fn )
{
    if ( std::find( g_events.begin(), g_events.end(), e ) == g_events.end() )
        sim_fail( "cuda-invalid-handle", "%s: the argument is not an event", fn );
    return e;
}
cudaError_t cudaEventRecord( cudaEvent_t event, cudaStream_t stream )
{
    ENTER( event );
    FAULT( cudaErrorUnknown );
    CUevent_st * e = eventOf( event, __func__ );
    e->stream = streamOf( stream, __func__ );
    e->recorded = true;
    Cmd c;
    c.kind = 6;
    e->seq = g_seq + 1;
    enqueue( e->stream, std::move( c ) );
    return cudaSuccess;
}
cudaError_t cudaEventSynchronize( cudaEvent_t event )
{
    ENTER( event );
    FAULT( cudaErrorUnknown );
    CUevent_st * e = eventOf( event, __func__ );
    while ( e->recorded && !e->stream->pending.empty() && e->stream->pending.front().seq <= e->seq )
        runFront( e->stream );
    return lost();
}
cudaError_t cudaStreamWaitEvent( cudaStream_t stream, cudaEvent_t event, unsigned int )
{
    ENTER( event );
    FAULT( cudaErrorUnknown );
    CUevent_st * e = eventOf( event, __func__ );
    if ( !e->recorded )
        return cudaSuccess;
    Cmd c;
    c.kind = 5;
    c.other = e->stream;
    c.otherSeq = e->seq;
    enqueue( streamOf( stream, __func__ ), std::move( c ) );
    return cudaSuccess;
}
cudaError_t cudaEventDestroy( cudaEvent_t event )
{
    ENTER( event );
    g_events.erase( std::find( g_events.begin(), g_events.end(), eventOf( event, __func__ ) ) );
    const bool f = fault( __func__ );
    return f ? err( cudaErrorUnknown ) : lost();
}

// ---------------------------------------------------------------------------------------------------- cuFFT
static Plan * planOf( cufftHandle h, const char * fn )
{
    if ( h < 1 || size_t( h ) > g_plans.size() || !g_plans[size_t( h - 1 )].live )
        sim_fail( "cuda-invalid-handle", "%s: the argument is not a plan or it has already been destroyed", fn );
    return &g_plans[size_t( h - 1 )];
}
cufftResult cufftPlan2d( cufftHandle * plan, int nx, int ny, cufftType type )
{
    ENTER( nullptr );
    if ( fault( __func__ ) )
        return CUFFT_ALLOC_FAILED;
    if ( nx < 1 || ny < 1 || type != CUFFT_C2C )
        return CUFFT_INVALID_SIZE;
    g_plans.push_back( Plan{ true, nx, ny, dev(), nullptr } );
    *plan = int( g_plans.size() );
    return CUFFT_SUCCESS;
}
cufftResult cufftExecC2C( cufftHandle plan, cufftComplex * in, cufftComplex * out, int direction )
{
    ENTER( in );
    if ( fault( __func__ ) )
        return CUFFT_EXEC_FAILED;
    const Plan * p = planOf( plan, __func__ );
    const size_t n = size_t( p->nx ) * size_t( p->ny ) * sizeof( cufftComplex );
    checkDevice( in, n, __func__ );
    checkDevice( out, n, __func__ );
    Cmd c;
    c.kind = 4;
    c.src = reinterpret_cast<const uint8_t *>( in );
    c.dst = reinterpret_cast<uint8_t *>( out );
    c.nx = p->nx;
    c.ny = p->ny;
    c.direction = direction;
    enqueue( p->stream ? p->stream : &g_default[p->device], std::move( c ) );
    return g_lost ? CUFFT_EXEC_FAILED : CUFFT_SUCCESS;
}
cufftResult cufftSetStream( cufftHandle plan, cudaStream_t stream )
{
    ENTER( nullptr );
    if ( fault( __func__ ) )
        return CUFFT_INVALID_PLAN;
    planOf( plan, __func__ )->stream = stream ? streamOf( stream, __func__ ) : nullptr;
    return CUFFT_SUCCESS;
}
cufftResult cufftDestroy( cufftHandle plan )
{
    ENTER( nullptr );
    Plan * p = planOf( plan, __func__ );
    finishDevice( p->device );
    p->live = false;
    return fault( __func__ ) ? CUFFT_INTERNAL_ERROR : CUFFT_SUCCESS;
}

// ---------------------------------------------------------------------------------------------------- for scenarios
void cuda_begin( const CudaConfig & c )
{
    rt_enter();
    g_c = c;
    void * p = mmap( reinterpret_cast<void *>( DEVMEM ), DEVSZ * MAXDEV, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0 );
    if ( p != reinterpret_cast<void *>( DEVMEM ) )
        fatal( "no memory for devices" );
    g_forbiddenLo = DEVMEM;
    g_forbiddenSize = DEVSZ * MAXDEV;
    for ( int d = 0; d < MAXDEV; ++d ) {
        g_default[d].device = d;
        g_default[d].isDefault = true;
        g_nextAddr[d] = DEVMEM + DEVSZ * uintptr_t( d ) + 4096;
    }
    g_begun = true;
    rt_leave();
}
void cuda_faults( uint32_t oneIn )
{
    g_oneIn = oneIn;
}
void cuda_fail_at( uint32_t k )
{
    g_failAt = k;
}
void cuda_fail_name( const char * part, uint32_t k )
{
    g_namePart = part;
    g_nameAt = k;
}
void cuda_lost_at( uint32_t k )
{
    g_lostAt = k;
}
void cuda_async_faults( uint32_t oneIn )
{
    g_asyncOneIn = oneIn;
}
void cuda_faults_off()
{
    g_oneIn = g_failAt = g_lostAt = g_nameAt = g_asyncOneIn = 0;
    for ( int d = 0; d < MAXDEV; ++d )
        for ( Cmd & c : g_default[d].pending )
            c.fails = false;
    for ( CUstream_st * s : g_streams )
        for ( Cmd & c : s->pending )
            c.fails = false;
    g_lost = false;
}
uint64_t cuda_failed()
{
    return g_failed;
}
bool cuda_is_lost()
{
    return g_lost;
}
const char * cuda_last_failed()
{
    return g_lastFailed;
}
void cuda_finish()
{
    rt_enter();
    for ( int d = 0; d < MAXDEV; ++d )
        finishDevice( d );
    rt_leave();
}
void cuda_peek( const void * p, void * out, size_t n )
{
    rt_enter();
    checkDevice( p, n, "back door" );
    memcpy( out, p, n );
    rt_leave();
}
void cuda_poke( void * p, const void * in, size_t n )
{
    rt_enter();
    checkDevice( p, n, "back door" );
    memcpy( p, in, n );
    rt_leave();
}
size_t cuda_mem_size( const void * p )
{
    const uintptr_t a = reinterpret_cast<uintptr_t>( p );
    const Block * b = isDevMem( p ) ? blockOf( a ) : nullptr;
    return b ? b->lo + b->n - a : 0;
}
int cuda_mem_device( const void * p )
{
    const Block * b = isDevMem( p ) ? blockOf( reinterpret_cast<uintptr_t>( p ) ) : nullptr;
    return b ? b->device : -1;
}
uint64_t cuda_used( int device )
{
    return g_usedMem[device];
}
int cuda_current( int set )
{
    if ( set >= 0 )
        dev() = set;
    return dev();
}
void cuda_late_release()
{
    g_lateFree = true;
}

void cuda_check_released()
{
    uint64_t streams = 0, plans = 0, memory = 0;
    for ( CUstream_st * s : g_streams )
        streams += s->alive;
    for ( const Plan & p : g_plans )
        plans += p.live;
    for ( int d = 0; d < MAXDEV; ++d )
        memory += g_usedMem[d];
    if ( streams || plans || memory || !g_events.empty() || !g_pinned.empty() )
        sim_fail( "cuda-leak", "not released at the end: %llu streams, %llu FFT plans, %zu events, %llu bytes of device memory, %zu blocks of pinned memory",
                  static_cast<unsigned long long>( streams ), static_cast<unsigned long long>( plans ), g_events.size(), static_cast<unsigned long long>( memory ),
                  g_pinned.size() );
}
}
