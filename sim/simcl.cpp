// SimCL, see simcl.h
#define CL_TARGET_OPENCL_VERSION 210
#define CL_USE_DEPRECATED_OPENCL_1_2_APIS
#include "simcl.h"
#include "rt_int.h"
#include <CL/cl.h>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <map>
#include <string>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

struct SimclKernel
{
    const char * name;
    unsigned n;
    const unsigned * size;
    const unsigned char * kind; // 0 value, 1 global or constant memory, 2 local memory
    void ( *call )( void ** );
    int grouped;
};

namespace
{
    // ------------------------------------------------------------------------------------------------ programs
    struct Module
    {
        const SimclKernel * k = nullptr;
        std::string log;
        uintptr_t lo = 0, hi = 0;
    };
    std::map<std::string, Module> g_modules;
    bool g_collect = false;
    int g_collectFd = -1;

    uint64_t fnv( const std::string & s, uint64_t h = 1469598103934665603ull )
    {
        for ( unsigned char c : s )
            h = ( h ^ c ) * 1099511628211ull;
        return h;
    }

    std::string exeDir()
    {
        char b[4096];
        const ssize_t n = readlink( "/proc/self/exe", b, sizeof b - 1 );
        std::string s( b, n > 0 ? size_t( n ) : 0 );
        return s.substr( 0, s.rfind( '/' ) );
    }

    bool readAll( const std::string & p, std::string & out )
    {
        const int fd = int( syscall( 257, AT_FDCWD, p.c_str(), O_RDONLY ) ); // openat
        if ( fd < 0 )
            return false;
        char b[4096];
        ssize_t n;
        out.clear();
        while ( ( n = syscall( 0, fd, b, sizeof b ) ) > 0 )
            out.append( b, size_t( n ) );
        syscall( 3, fd );
        return true;
    }

    void fatal( const char * what, const std::string & more )
    {
        if ( g_simActive )
            rt_die( 3, "simcl", "%s %s", what, more.c_str() );
        fprintf( stderr, "simcl: %s %s\n", what, more.c_str() );
        _exit( 72 );
    }

    const Module & moduleOf( const std::string & src )
    {
        std::map<std::string, Module>::iterator it = g_modules.find( src );
        if ( it != g_modules.end() )
            return it->second;
        const std::string build = exeDir();
        const std::string script = build.substr( 0, build.rfind( '/' ) ) + "/harness/clcompile.py";
        std::string text;
        if ( !readAll( script, text ) )
            fatal( "cannot read", script );
        char key[40];
        snprintf( key, sizeof key, "%016llx%016llx", static_cast<unsigned long long>( fnv( src ) ), static_cast<unsigned long long>( fnv( text, fnv( src, 7 ) ) ) );
        const std::string dir = build + "/cl";
        mkdir( dir.c_str(), 0755 );
        const std::string pre = dir + "/" + key;
        Module m;
        if ( !readAll( pre + ".log", m.log ) ) {
            if ( access( ( pre + ".so" ).c_str(), R_OK ) != 0 ) {
                char sp[64];
                snprintf( sp, sizeof sp, ".%d.src", int( getpid() ) );
                const std::string sf = pre + sp;
                const int fd = int( syscall( 257, AT_FDCWD, sf.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644 ) );
                if ( fd < 0 || syscall( 1, fd, src.data(), src.size() ) != long( src.size() ) )
                    fatal( "cannot write", sf );
                syscall( 3, fd );
                const pid_t pid = pid_t( syscall( 57 ) ); // fork
                if ( pid == 0 ) {
                    const char * argv[] = { "python3", script.c_str(), sf.c_str(), pre.c_str(), nullptr };
                    const char * envp[] = { "PATH=/usr/local/bin:/usr/bin:/bin", "LC_ALL=C", nullptr };
                    syscall( 59, "/usr/bin/python3", argv, envp );
                    syscall( 231, 127 );
                }
                int st = 0;
                if ( pid < 0 || syscall( 61, pid, &st, 0, nullptr ) != pid || st != 0 )
                    fatal( "cannot compile a program of the library, see", sf );
                syscall( 87, sf.c_str() ); // unlink
            }
            if ( !readAll( pre + ".log", m.log ) ) {
                void * h = dlopen( ( pre + ".so" ).c_str(), RTLD_NOW | RTLD_LOCAL );
                if ( !h )
                    fatal( "cannot load a program:", dlerror() );
                m.k = static_cast<const SimclKernel *>( dlsym( h, "simcl_kernels" ) );
                struct link_map * lm = nullptr;
                dlinfo( h, RTLD_DI_LINKMAP, &lm );
                struct Find
                {
                    uintptr_t base, lo, hi;
                } f = { lm->l_addr, ~uintptr_t( 0 ), 0 };
                dl_iterate_phdr(
                    []( struct dl_phdr_info * i, size_t, void * d ) {
                        Find * ff = static_cast<Find *>( d );
                        if ( i->dlpi_addr == ff->base )
                            for ( int k = 0; k < i->dlpi_phnum; ++k )
                                if ( i->dlpi_phdr[k].p_type == PT_LOAD ) {
                                    ff->lo = std::min( ff->lo, uintptr_t( i->dlpi_addr + i->dlpi_phdr[k].p_vaddr ) );
                                    ff->hi = std::max( ff->hi, uintptr_t( i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz ) );
                                }
                        return 0;
                    },
                    &f );
                m.lo = f.lo;
                m.hi = f.hi;
            }
        }
        return g_modules[src] = m;
    }

    // ------------------------------------------------------------------------------------------------ objects
    enum Kind
    {
        K_FREE,
        K_CONTEXT,
        K_QUEUE,
        K_PROGRAM,
        K_KERNEL,
        K_MEM,
        K_EVENT
    };
    const char * const kindName[] = { "nothing", "context", "command queue", "program", "kernel", "memory object", "event" };

    struct Obj;
    struct Cmd
    {
        int kind = 0; // 0 kernel, 1 copy, 2 fill, 3 write, 4 read
        Obj * kernel = nullptr;
        uint32_t dim = 0;
        size_t global[3] = { 1, 1, 1 }, local[3] = { 1, 1, 1 }, offset[3] = { 0, 0, 0 };
        std::vector<std::vector<uint8_t>> args;
        std::vector<Obj *> argMem;
        Obj *a = nullptr, *b = nullptr;
        size_t aOff = 0, bOff = 0, n = 0;
        std::vector<uint8_t> pattern;
        void * host = nullptr;
        const void * hostIn = nullptr;
        Obj * event = nullptr;
        bool fails = false;
    };

    struct Obj
    {
        int kind = K_FREE;
        int api = 0, impl = 0;
        uint32_t id = 0;
        Obj * ctx = nullptr;
        int device = -1;
        // memory
        Obj * parent = nullptr;
        size_t origin = 0, size = 0;
        uint8_t * data = nullptr;
        // program and kernel
        std::string src;
        bool built = false, buildFailed = false;
        const Module * mod = nullptr;
        Obj * program = nullptr;
        const SimclKernel * k = nullptr;
        std::string name;
        std::vector<std::vector<uint8_t>> args;
        std::vector<char> argSet;
        std::vector<Obj *> argMem;
        // queue
        std::deque<Cmd> pending;
        bool running = false;
        // event
        int status = CL_QUEUED;
        Obj * queue = nullptr;
        uint64_t raceTag = 0; // accesses to the arguments of a kernel
    };

    const int MAXOBJ = 6000;
    Obj g_obj[MAXOBJ];
    int g_used = 0;
    uint32_t g_nextId = 1;
    std::vector<int> g_freeList;

    char g_device[4], g_platform[2];
    ClConfig g_c;
    uint64_t g_usedMem[4];

    // faults
    uint64_t g_calls, g_failed;
    uint32_t g_oneIn, g_failAt, g_lostAt, g_nameAt, g_asyncOneIn;
    bool g_lost;
    const char * g_namePart;
    const char * g_lastFailed = "";

    bool live()
    {
        return g_simActive && !g_collect;
    }

    Obj * make( int kind )
    {
        int i;
        if ( g_c.reuse && !g_freeList.empty() ) {
            i = g_freeList.back();
            g_freeList.pop_back();
        }
        else if ( g_used < MAXOBJ )
            i = g_used++;
        else {
            fatal( "too many objects", "" );
            return nullptr;
        }
        Obj * o = &g_obj[i];
        *o = Obj();
        o->kind = kind;
        o->api = 1;
        o->id = g_nextId++;
        if ( live() )
            sim_hb_acquire( o ); // creation and destruction are thread-safe
        return o;
    }

    void drop( Obj * o );
    void unref( Obj * o )
    {
        if ( o ) {
            --o->impl;
            drop( o );
        }
    }
    Obj * ref( Obj * o )
    {
        if ( o )
            ++o->impl;
        return o;
    }
    void drop( Obj * o )
    {
        if ( o->api > 0 || o->impl > 0 )
            return;
        switch ( o->kind ) {
        case K_MEM:
            if ( o->parent )
                unref( o->parent );
            else {
                g_usedMem[o->device] -= o->size;
                free( o->data );
            }
            break;
        case K_KERNEL:
            unref( o->program );
            break;
        default:
            break;
        }
        if ( o->ctx )
            unref( o->ctx );
        o->kind = K_FREE;
        if ( live() )
            sim_hb_release( o );
        g_freeList.push_back( int( o - g_obj ) );
    }

    // the object for a handle given by the library
    Obj * get( const void * h, int kind, const char * fn )
    {
        if ( h == nullptr )
            return nullptr;
        const uintptr_t a = reinterpret_cast<uintptr_t>( h ), b = reinterpret_cast<uintptr_t>( &g_obj[0] );
        if ( a < b || a >= b + sizeof g_obj || ( a - b ) % sizeof( Obj ) != 0 )
            sim_fail( "cl-invalid-handle", "%s: the argument is not a handle of any OpenCL object (%s expected)", fn, kindName[kind] );
        Obj * o = &g_obj[( a - b ) / sizeof( Obj )];
        if ( o->kind == K_FREE || o->api <= 0 )
            sim_fail( "cl-released-handle", "%s: the %s has already been released", fn, kindName[kind] );
        if ( o->kind != kind )
            sim_fail( "cl-invalid-handle", "%s: a %s is given instead of a %s", fn, kindName[o->kind], kindName[kind] );
        return o;
    }

    bool fault( const char * fn )
    {
        if ( !live() )
            return false;
        ++g_calls;
        if ( !rt_faults_on() )
            return false;
        bool f = g_lost;
        if ( g_lostAt && --g_lostAt == 0 )
            f = g_lost = true;
        if ( g_failAt && --g_failAt == 0 )
            f = true;
        if ( g_nameAt && strstr( fn, g_namePart ) && --g_nameAt == 0 )
            f = true;
        if ( !f && g_oneIn )
            f = sim_chance( ST_CL, 1, g_oneIn );
        if ( f ) {
            ++g_failed;
            g_lastFailed = fn;
            char b[48];
            snprintf( b, sizeof b, "fault.%s", fn );
            sim_count( b, 1 );
            sim_note( "%s fails", fn );
        }
        return f;
    }

    struct Enter // of every call
    {
        Enter( const char * fn, const void * h )
        {
            if ( live() )
                sim_sync_point( fn, h );
            rt_enter();
            if ( live() ) {
                sim_event( fn, 0, 0 );
            }
        }
        ~Enter()
        {
            rt_leave();
        }
    };

    // ------------------------------------------------------------------------------------------------ execution of kernels
    extern "C" void simcl_switch( void ** save, void * to );
    asm( R"(
        .text
        .globl simcl_switch
        .type simcl_switch, @function
    simcl_switch:
        pushq %rbp
        pushq %rbx
        pushq %r12
        pushq %r13
        pushq %r14
        pushq %r15
        movq %rsp, (%rdi)
        movq %rsi, %rsp
        popq %r15
        popq %r14
        popq %r13
        popq %r12
        popq %rbx
        popq %rbp
        ret
        .size simcl_switch, .-simcl_switch
    )" );

    const size_t FSTACK = 32768;
    const int MAXFIBER = 1024;
    struct Fiber
    {
        void * sp = nullptr;
        uint8_t * stack = nullptr;
        size_t gid[3], lid[3], grp[3];
        bool done = false, waiting = false;
    };
    struct Region
    {
        uintptr_t lo, hi;
    };
    struct Exec
    {
        const SimclKernel * k;
        const Module * mod;
        const Cmd * cmd;
        void ** argv;
        Region reg[16];
        int nreg;
        Fiber * f; // all fibers of the current batch
        int nf;
        int active[MAXFIBER];
        int nactive;
        int cur; // index into active
        void * mainSp;
        const uint32_t * order;
        uint64_t items, next;
        uint64_t rng;
        uint32_t gap, meanGap;
        bool grouped, failed;
        uint64_t stopAfter; // work items until an injected failure
        char error[200];
        uint64_t preempts;
        uint64_t path; // the order in which work items ran and overlapped
        size_t ngroups[3];
    };
    Exec * X;
    Fiber g_fiber[MAXFIBER];

    uint32_t rnd( uint32_t n )
    {
        uint64_t z = ( X->rng += 0x9E3779B97F4A7C15ull );
        z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
        z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
        return uint32_t( ( z ^ ( z >> 31 ) ) % n );
    }

    void switchTo( int idx )
    {
        Fiber * from = &X->f[X->active[X->cur]];
        X->cur = idx;
        Fiber * to = &X->f[X->active[idx]];
        if ( from != to )
            simcl_switch( &from->sp, to->sp );
    }

    void toMain()
    {
        simcl_switch( &X->f[X->active[X->cur]].sp, X->mainSp );
    }

    void locate( Fiber & f, uint64_t item )
    {
        const Cmd & c = *X->cmd;
        // items are numbered group by group
        const size_t per = c.local[0] * c.local[1] * c.local[2];
        size_t g = item / per, l = item % per;
        for ( int d = 0; d < 3; ++d ) {
            f.grp[d] = g % X->ngroups[d];
            g /= X->ngroups[d];
            f.lid[d] = l % c.local[d];
            l /= c.local[d];
            f.gid[d] = c.offset[d] + f.grp[d] * c.local[d] + f.lid[d];
        }
    }

    void fiberEnd()
    {
        Exec & x = *X;
        Fiber * me = &x.f[x.active[x.cur]];
        me->done = true;
        x.active[x.cur] = x.active[--x.nactive];
        if ( x.nactive == 0 ) {
            void * dummy;
            simcl_switch( &dummy, x.mainSp );
        }
        x.cur = x.nactive > 1 ? int( rnd( uint32_t( x.nactive ) ) ) : 0;
        void * dummy;
        simcl_switch( &dummy, x.f[x.active[x.cur]].sp );
        abort();
    }

    uint64_t mix( uint64_t z )
    {
        z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
        z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
        return z ^ ( z >> 31 );
    }

    void fiberMain()
    {
        Exec & x = *X;
        if ( x.grouped )
            x.k->call( x.argv );
        else
            while ( x.next < x.items && !x.failed ) {
                if ( x.next == x.stopAfter ) {
                    x.failed = true;
                    break;
                }
                locate( x.f[x.active[x.cur]], x.order[x.next++] );
                x.k->call( x.argv );
            }
        fiberEnd();
    }

    void start( Fiber & f )
    {
        if ( !f.stack )
            f.stack = static_cast<uint8_t *>( malloc( FSTACK ) );
        uintptr_t top = ( reinterpret_cast<uintptr_t>( f.stack ) + FSTACK ) & ~uintptr_t( 15 );
        void ** s = reinterpret_cast<void **>( top ) - 2;
        *s = reinterpret_cast<void *>( &fiberMain ); // at entry the stack is 8 modulo 16
        s -= 6;
        memset( s, 0, 48 );
        f.sp = s;
        f.done = f.waiting = false;
    }

    void runActive()
    {
        Exec & x = *X;
        if ( x.nactive == 0 )
            return;
        x.cur = x.nactive > 1 ? int( rnd( uint32_t( x.nactive ) ) ) : 0;
        simcl_switch( &x.mainSp, x.f[x.active[x.cur]].sp );
    }

    void maybePreempt()
    {
        Exec & x = *X;
        if ( x.meanGap && x.nactive > 1 && --x.gap == 0 ) {
            x.gap = 1 + rnd( 2 * x.meanGap );
            ++x.preempts;
            const int to = int( rnd( uint32_t( x.nactive ) ) );
            x.path = mix( x.path ^ ( uint64_t( to ) << 32 ) ^ x.next );
            switchTo( to );
        }
    }

    void kernelAccess( uintptr_t a, size_t n, bool wr )
    {
        if ( !X )
            return;
        Exec & x = *X;
        bool ok = false;
        for ( int i = 0; i < x.nreg && !ok; ++i )
            ok = a >= x.reg[i].lo && a + n <= x.reg[i].hi;
        if ( !ok ) {
            const Fiber & f = x.f[x.active[x.cur]];
            const uintptr_t s = reinterpret_cast<uintptr_t>( f.stack );
            ok = ( a >= s && a + n <= s + FSTACK ) || ( a >= x.mod->lo && a + n <= x.mod->hi );
            if ( !ok ) {
                snprintf( x.error, sizeof x.error, "kernel %s: work item (%zu,%zu,%zu) %s memory outside of the buffers given to it", x.k->name, f.gid[0], f.gid[1], f.gid[2],
                          wr ? "writes" : "reads" );
                toMain();
            }
        }
        maybePreempt();
    }

    cl_int runKernel( Cmd & c )
    {
        static Exec x;
        Obj * ko = c.kernel;
        if ( !ko->k )
            return CL_SUCCESS; // collecting
        memset( static_cast<void *>( &x ), 0, offsetof( Exec, active ) );
        x.k = ko->k;
        x.mod = ko->mod;
        x.cmd = &c;
        x.nreg = 0;
        x.error[0] = 0;
        x.failed = false;
        x.preempts = 0;
        x.path = 0;
        x.nactive = 0;
        x.next = 0;
        const uint32_t order = g_c.order;
        const uint32_t seed = order >= 2 ? sim_draw( ST_CL, 65536 ) : 0;
        x.rng = seed * 0x632BE59BD9B4E019ull + 12345;
        X = &x;
        // every buffer gets its own copy with nothing around it
        struct Copy
        {
            Obj * m;
            uint8_t * p;
        };
        std::vector<Copy> copies;
        std::vector<void *> argv( c.args.size() + 1 );
        std::vector<uint64_t> val( c.args.size() + 1 );
        std::vector<std::vector<uint8_t>> locals( c.args.size() );
        for ( size_t i = 0; i < c.args.size(); ++i ) {
            if ( x.k->kind[i] == 1 ) {
                Obj * m = c.argMem[i];
                if ( !m ) {
                    val[i] = 0;
                }
                else {
                    uint8_t * p = nullptr;
                    for ( const Copy & cp : copies )
                        if ( cp.m == m )
                            p = cp.p;
                    if ( !p ) {
                        bool overlaps = false;
                        for ( const Copy & cp : copies )
                            overlaps = overlaps || ( m->data < cp.m->data + cp.m->size && cp.m->data < m->data + m->size );
                        if ( overlaps )
                            fatal( "overlapping sub-buffers are not supported", "" );
                        p = static_cast<uint8_t *>( malloc( m->size ) );
                        memcpy( p, m->data, m->size );
                        copies.push_back( { m, p } );
                        if ( x.nreg == 16 )
                            fatal( "too many buffers of a kernel", "" );
                        x.reg[x.nreg++] = { reinterpret_cast<uintptr_t>( p ), reinterpret_cast<uintptr_t>( p ) + m->size };
                    }
                    val[i] = reinterpret_cast<uint64_t>( p );
                }
                argv[i] = &val[i];
            }
            else if ( x.k->kind[i] == 2 ) {
                uint64_t n = 0;
                memcpy( &n, c.args[i].data(), 8 );
                locals[i].resize( n );
                val[i] = reinterpret_cast<uint64_t>( locals[i].data() );
                argv[i] = &val[i];
                if ( x.nreg == 16 )
                    fatal( "too many buffers of a kernel", "" );
                x.reg[x.nreg++] = { uintptr_t( val[i] ), uintptr_t( val[i] ) + n };
            }
            else
                argv[i] = c.args[i].data();
        }
        x.argv = argv.data();
        const size_t per = c.local[0] * c.local[1] * c.local[2];
        size_t groups = 1;
        for ( int d = 0; d < 3; ++d ) {
            x.ngroups[d] = c.global[d] / c.local[d];
            groups *= x.ngroups[d];
        }
        x.items = groups * per;
        if ( x.items > ( 1u << 22 ) )
            fatal( "too many work items", "" );
        x.stopAfter = c.fails ? rnd( uint32_t( x.items ) + 1 ) : ~uint64_t( 0 );
        x.grouped = x.k->grouped != 0;
        x.f = g_fiber;
        if ( order == 3 ) {
            static const uint32_t gaps[] = { 1, 2, 4, 9 };
            x.meanGap = gaps[rnd( 4 )];
            x.gap = 1 + rnd( x.meanGap );
        }
        std::vector<uint32_t> ord( x.grouped ? groups : x.items );
        for ( size_t i = 0; i < ord.size(); ++i )
            ord[i] = uint32_t( order == 1 ? ord.size() - 1 - i : i );
        if ( order >= 2 )
            for ( size_t i = ord.size(); i > 1; --i )
                std::swap( ord[i - 1], ord[rnd( uint32_t( i ) )] );
        x.order = ord.data();
        uint64_t jumps = 0;
        for ( size_t i = 0; i < ord.size(); ++i ) {
            jumps += ord[i] != ( i ? ord[i - 1] + 1 : 0 );
            x.path = mix( x.path ^ ord[i] );
        }
        if ( x.grouped ) {
            if ( per > size_t( MAXFIBER ) )
                fatal( "too many work items in a group", "" );
            for ( size_t g = 0; g < groups && !x.error[0]; ++g ) {
                if ( c.fails && g * per >= x.stopAfter ) {
                    x.failed = true;
                    break;
                }
                x.nf = x.nactive = int( per );
                for ( size_t i = 0; i < per; ++i ) {
                    start( x.f[i] );
                    locate( x.f[i], uint64_t( ord[g] ) * per + i );
                    x.active[i] = int( i );
                }
                // rounds between barriers
                for ( ;; ) {
                    runActive();
                    if ( x.error[0] )
                        break;
                    int waiting = 0, done = 0;
                    for ( int i = 0; i < x.nf; ++i ) {
                        waiting += x.f[i].waiting;
                        done += x.f[i].done;
                    }
                    if ( waiting == 0 )
                        break;
                    if ( done ) {
                        snprintf( x.error, sizeof x.error, "kernel %s: not all work items of a group reach a barrier", x.k->name );
                        break;
                    }
                    x.nactive = 0;
                    for ( int i = 0; i < x.nf; ++i ) {
                        x.f[i].waiting = false;
                        x.active[x.nactive++] = i;
                    }
                }
            }
        }
        else {
            const int want = order == 3 ? int( 2 + rnd( 7 ) ) : 1;
            x.nf = x.nactive = int( std::min<uint64_t>( uint64_t( want ), std::max<uint64_t>( x.items, 1 ) ) );
            for ( int i = 0; i < x.nf; ++i ) {
                start( x.f[i] );
                x.active[i] = i;
            }
            runActive();
        }
        X = nullptr;
        for ( const Copy & cp : copies ) {
            memcpy( cp.m->data, cp.p, cp.m->size );
            free( cp.p );
        }
        rt_hash( x.rng, x.preempts );
        rt_order( x.path, x.preempts + jumps );
        if ( live() ) {
            sim_count( "work.items", x.items );
            if ( x.preempts )
                sim_count( "work.preemptions", x.preempts );
            sim_count( "work.kernels", 1 );
        }
        if ( x.error[0] )
            sim_fail( "device-memory", "%s", x.error );
        if ( c.fails && !x.failed )
            x.failed = true; // after the last work item
        return x.failed ? CL_OUT_OF_RESOURCES : CL_SUCCESS;
    }

    // ------------------------------------------------------------------------------------------------ queues
    void runFront( Obj * q )
    {
        q->running = true;
        Cmd c = std::move( q->pending.front() );
        q->pending.pop_front();
        cl_int r = CL_SUCCESS;
        switch ( c.kind ) {
        case 0:
            r = runKernel( c );
            break;
        case 1:
            memmove( c.b->data + c.bOff, c.a->data + c.aOff, c.n );
            break;
        case 2:
            for ( size_t i = 0; i < c.n; ++i )
                c.a->data[c.aOff + i] = c.pattern[i % c.pattern.size()];
            break;
        case 3:
            if ( live() )
                rt_access( c.hostIn, c.n, false, false, "pending transfer to a device" );
            memcpy( c.a->data + c.aOff, c.hostIn, c.n );
            break;
        case 4:
            if ( live() )
                rt_access( c.host, c.n, true, false, "pending transfer from a device" );
            memcpy( c.host, c.a->data + c.aOff, c.n );
            break;
        }
        if ( c.event ) {
            c.event->status = r == CL_SUCCESS ? CL_COMPLETE : r;
            unref( c.event );
        }
        for ( Obj * m : c.argMem )
            unref( m );
        unref( c.kernel );
        unref( c.a );
        unref( c.b );
        q->running = false;
    }

    void drain( Obj * q )
    {
        while ( !q->pending.empty() )
            runFront( q );
    }

    void drainAll()
    {
        for ( int i = 0; i < g_used; ++i )
            if ( g_obj[i].kind == K_QUEUE )
                drain( &g_obj[i] );
    }

    void progress() // devices work on their own
    {
        if ( !live() || g_c.eager == 0 )
            return;
        for ( int i = 0; i < g_used; ++i )
            if ( g_obj[i].kind == K_QUEUE && !g_obj[i].pending.empty() && !g_obj[i].running )
                while ( !g_obj[i].pending.empty() && sim_chance( ST_CL, g_c.eager, 8 ) )
                    runFront( &g_obj[i] );
    }

    void enqueue( Obj * q, Cmd && c, cl_event * ev )
    {
        if ( ev ) {
            Obj * e = make( K_EVENT );
            e->ctx = ref( q->ctx );
            e->queue = q;
            c.event = ref( e );
            *ev = reinterpret_cast<cl_event>( e );
        }
        q->pending.push_back( std::move( c ) );
        progress();
    }

    int devOf( cl_device_id d )
    {
        const char * p = reinterpret_cast<const char *>( d );
        if ( p < g_device || p >= g_device + 4 )
            return -1;
        const int i = int( p - g_device );
        return i < g_c.devices[0] + ( g_c.platforms > 1 ? g_c.devices[1] : 0 ) ? i : -1;
    }

    cl_int info( const void * p, size_t n, size_t cap, void * out, size_t * ret )
    {
        if ( out ) {
            if ( cap < n )
                return CL_INVALID_VALUE;
            memcpy( out, p, n );
        }
        if ( ret )
            *ret = n;
        return CL_SUCCESS;
    }
    cl_int infoText( const std::string & s, size_t cap, void * out, size_t * ret )
    {
        return info( s.c_str(), s.size() + 1, cap, out, ret );
    }
    template <typename T>
    cl_int infoVal( T v, size_t cap, void * out, size_t * ret )
    {
        return info( &v, sizeof v, cap, out, ret );
    }

    bool waitList( cl_uint n, const cl_event * l, const char * fn )
    {
        if ( ( n == 0 ) != ( l == nullptr ) )
            return false;
        for ( cl_uint i = 0; i < n; ++i ) {
            Obj * e = get( l[i], K_EVENT, fn );
            if ( !e )
                return false;
            if ( e->status >= CL_SUBMITTED || e->status == CL_QUEUED )
                drainAll();
        }
        return true;
    }

    cl_int release( const void * h, int kind, const char * fn, cl_int bad )
    {
        Obj * o = get( h, kind, fn );
        if ( !o )
            return bad;
        if ( --o->api == 0 ) {
            if ( kind == K_QUEUE )
                drain( o );
            drop( o );
        }
        return CL_SUCCESS;
    }
    cl_int retain( const void * h, int kind, const char * fn, cl_int bad )
    {
        Obj * o = get( h, kind, fn );
        if ( !o )
            return bad;
        ++o->api;
        return CL_SUCCESS;
    }

    void hostRead( const void * p, size_t n )
    {
        if ( live() && p && n )
            sim_read( p, n );
    }
    void hostWrite( void * p, size_t n )
    {
        if ( live() && p && n )
            sim_write( p, n );
    }
}

#define ENTER( h ) Enter en( __func__, h )
#define FAULT( code )                                                                                                                                \
    if ( fault( __func__ ) )                                                                                                                         \
    return code
#define FAULTP( code )                                                                                                                               \
    if ( fault( __func__ ) ) {                                                                                                                       \
        if ( err )                                                                                                                                   \
            *err = code;                                                                                                                             \
        return nullptr;                                                                                                                              \
    }
#define ERRP( code )                                                                                                                                 \
    do {                                                                                                                                             \
        if ( err )                                                                                                                                   \
            *err = code;                                                                                                                             \
        return nullptr;                                                                                                                              \
    } while ( 0 )

// ---------------------------------------------------------------------------------------------------- functions called by kernels
extern "C" {
void simcl_init() {}
void simcl_func_entry( void * ) {}
void simcl_func_exit() {}
#define ACC( N )                                                                                                                                     \
    void simcl_read##N( void * p )                                                                                                                   \
    {                                                                                                                                                \
        kernelAccess( reinterpret_cast<uintptr_t>( p ), N, false );                                                                                  \
    }                                                                                                                                                \
    void simcl_write##N( void * p )                                                                                                                  \
    {                                                                                                                                                \
        kernelAccess( reinterpret_cast<uintptr_t>( p ), N, true );                                                                                   \
    }                                                                                                                                                \
    void simcl_unaligned_read##N( void * p )                                                                                                         \
    {                                                                                                                                                \
        kernelAccess( reinterpret_cast<uintptr_t>( p ), N, false );                                                                                  \
    }                                                                                                                                                \
    void simcl_unaligned_write##N( void * p )                                                                                                        \
    {                                                                                                                                                \
        kernelAccess( reinterpret_cast<uintptr_t>( p ), N, true );                                                                                   \
    }                                                                                                                                                \
    void simcl_read_write##N( void * p )                                                                                                             \
    {                                                                                                                                                \
        kernelAccess( reinterpret_cast<uintptr_t>( p ), N, true );                                                                                   \
    }
ACC( 1 )
ACC( 2 )
ACC( 4 )
ACC( 8 )
ACC( 16 )
void * simcl_memcpy( void * d, const void * s, size_t n )
{
    if ( n ) {
        kernelAccess( reinterpret_cast<uintptr_t>( s ), n, false );
        kernelAccess( reinterpret_cast<uintptr_t>( d ), n, true );
    }
    return memcpy( d, s, n );
}
void * simcl_memset( void * d, int v, size_t n )
{
    if ( n )
        kernelAccess( reinterpret_cast<uintptr_t>( d ), n, true );
    return memset( d, v, n );
}
void * simcl_memmove( void * d, const void * s, size_t n )
{
    if ( n ) {
        kernelAccess( reinterpret_cast<uintptr_t>( s ), n, false );
        kernelAccess( reinterpret_cast<uintptr_t>( d ), n, true );
    }
    return memmove( d, s, n );
}
}

static Fiber & self()
{
    return X->f[X->active[X->cur]];
}
#define WI( sym, expr )                                                                                                                              \
    extern "C" size_t sym( unsigned d )                                                                                                              \
    {                                                                                                                                                \
        return d < 3 ? ( expr ) : 0;                                                                                                                 \
    }
WI( _Z13get_global_idj, self().gid[d] )
WI( _Z12get_local_idj, self().lid[d] )
WI( _Z12get_group_idj, self().grp[d] )
WI( _Z17get_global_offsetj, X->cmd->offset[d] )
extern "C" size_t _Z15get_global_sizej( unsigned d )
{
    return d < 3 ? X->cmd->global[d] : 1;
}
extern "C" size_t _Z14get_local_sizej( unsigned d )
{
    return d < 3 ? X->cmd->local[d] : 1;
}
extern "C" size_t _Z14get_num_groupsj( unsigned d )
{
    return d < 3 ? X->ngroups[d] : 1;
}
extern "C" unsigned _Z12get_work_dimv()
{
    return X->cmd->dim;
}
extern "C" void _Z9mem_fencej( unsigned ) {}
extern "C" void _Z14read_mem_fencej( unsigned ) {}
extern "C" void _Z15write_mem_fencej( unsigned ) {}
extern "C" void _Z7barrierj( unsigned )
{
    Exec & x = *X;
    Fiber & f = self();
    f.waiting = true;
    const int me = x.active[x.cur];
    x.active[x.cur] = x.active[--x.nactive];
    if ( x.nactive == 0 )
        simcl_switch( &x.f[me].sp, x.mainSp );
    else {
        x.cur = x.nactive > 1 ? int( rnd( uint32_t( x.nactive ) ) ) : 0;
        simcl_switch( &x.f[me].sp, x.f[x.active[x.cur]].sp );
    }
}

#define ATOMIC( NAME, LEN, T, TC, EXPR )                                                                                                             \
    static T NAME##TC##_impl( volatile T * p, T v )                                                                                                  \
    {                                                                                                                                                \
        kernelAccess( reinterpret_cast<uintptr_t>( p ), 4, true );                                                                                   \
        const T o = *p;                                                                                                                              \
        *p = EXPR;                                                                                                                                   \
        return o;                                                                                                                                    \
    }                                                                                                                                                \
    extern "C" T _Z##LEN##NAME##PU8CLglobalV##TC##TC( volatile T * p, T v )                                                                          \
    {                                                                                                                                                \
        return NAME##TC##_impl( p, v );                                                                                                              \
    }                                                                                                                                                \
    extern "C" T _Z##LEN##NAME##PU7CLlocalV##TC##TC( volatile T * p, T v )                                                                           \
    {                                                                                                                                                \
        return NAME##TC##_impl( p, v );                                                                                                              \
    }
#define ATOMIC0( NAME, LEN, T, TC, EXPR )                                                                                                            \
    static T NAME##TC##_impl( volatile T * p )                                                                                                       \
    {                                                                                                                                                \
        kernelAccess( reinterpret_cast<uintptr_t>( p ), 4, true );                                                                                   \
        const T o = *p;                                                                                                                              \
        *p = EXPR;                                                                                                                                   \
        return o;                                                                                                                                    \
    }                                                                                                                                                \
    extern "C" T _Z##LEN##NAME##PU8CLglobalV##TC( volatile T * p )                                                                                   \
    {                                                                                                                                                \
        return NAME##TC##_impl( p );                                                                                                                 \
    }                                                                                                                                                \
    extern "C" T _Z##LEN##NAME##PU7CLlocalV##TC( volatile T * p )                                                                                    \
    {                                                                                                                                                \
        return NAME##TC##_impl( p );                                                                                                                 \
    }
#define ATOMICS( T, TC )                                                                                                                             \
    ATOMIC( atomic_add, 10, T, TC, o + v )                                                                                                           \
    ATOMIC( atomic_sub, 10, T, TC, o - v )                                                                                                           \
    ATOMIC( atomic_min, 10, T, TC, v < o ? v : o )                                                                                                   \
    ATOMIC( atomic_max, 10, T, TC, v > o ? v : o )                                                                                                   \
    ATOMIC( atomic_and, 10, T, TC, o & v )                                                                                                           \
    ATOMIC( atomic_or, 9, T, TC, o | v )                                                                                                             \
    ATOMIC( atomic_xor, 10, T, TC, o ^ v )                                                                                                           \
    ATOMIC( atomic_xchg, 11, T, TC, v )                                                                                                              \
    ATOMIC( atom_add, 8, T, TC, o + v )                                                                                                              \
    ATOMIC( atom_min, 8, T, TC, v < o ? v : o )                                                                                                      \
    ATOMIC( atom_max, 8, T, TC, v > o ? v : o )                                                                                                      \
    ATOMIC0( atomic_inc, 10, T, TC, o + 1 )                                                                                                          \
    ATOMIC0( atomic_dec, 10, T, TC, o - 1 )                                                                                                          \
    ATOMIC0( atom_inc, 8, T, TC, o + 1 )                                                                                                             \
    extern "C" T _Z14atomic_cmpxchgPU8CLglobalV##TC##TC##TC( volatile T * p, T c, T v )                                                              \
    {                                                                                                                                                \
        kernelAccess( reinterpret_cast<uintptr_t>( p ), 4, true );                                                                                   \
        const T o = *p;                                                                                                                              \
        if ( o == c )                                                                                                                                \
            *p = v;                                                                                                                                  \
        return o;                                                                                                                                    \
    }
ATOMICS( unsigned, j )
ATOMICS( int, i )

// ---------------------------------------------------------------------------------------------------- OpenCL API
extern "C" {
cl_int clGetPlatformIDs( cl_uint n, cl_platform_id * out, cl_uint * num )
{
    ENTER( nullptr );
    if ( ( n == 0 && out ) || ( !out && !num ) )
        return CL_INVALID_VALUE;
    FAULT( CL_OUT_OF_HOST_MEMORY );
    if ( g_c.platforms == 0 ) {
        if ( num )
            *num = 0;
        return -1001; // what the ICD loader returns
    }
    if ( num )
        *num = cl_uint( g_c.platforms );
    for ( cl_uint i = 0; out && i < n && i < cl_uint( g_c.platforms ); ++i )
        out[i] = reinterpret_cast<cl_platform_id>( &g_platform[i] );
    return CL_SUCCESS;
}

cl_int clGetPlatformInfo( cl_platform_id, cl_platform_info p, size_t cap, void * out, size_t * ret )
{
    ENTER( nullptr );
    FAULT( CL_OUT_OF_HOST_MEMORY );
    return infoText( p == CL_PLATFORM_VERSION ? "OpenCL 1.2 SimCL" : "SimCL", cap, out, ret );
}

cl_int clGetDeviceIDs( cl_platform_id p, cl_device_type t, cl_uint n, cl_device_id * out, cl_uint * num )
{
    ENTER( nullptr );
    const char * q = reinterpret_cast<const char *>( p );
    if ( q < g_platform || q >= g_platform + g_c.platforms )
        return CL_INVALID_PLATFORM;
    if ( t == 0 )
        return CL_INVALID_DEVICE_TYPE;
    if ( ( n == 0 && out ) || ( !out && !num ) )
        return CL_INVALID_VALUE;
    FAULT( CL_OUT_OF_RESOURCES );
    const int pi = int( q - g_platform );
    cl_uint found = 0;
    for ( int i = 0; i < g_c.devices[pi]; ++i ) {
        const int d = ( pi ? g_c.devices[0] : 0 ) + i;
        const cl_device_type dt = g_c.dev[d].cpu ? CL_DEVICE_TYPE_CPU : CL_DEVICE_TYPE_GPU;
        if ( !( t & dt ) )
            continue;
        if ( out && found < n )
            out[found] = reinterpret_cast<cl_device_id>( &g_device[d] );
        ++found;
    }
    if ( found == 0 )
        return CL_DEVICE_NOT_FOUND;
    if ( num )
        *num = found;
    return CL_SUCCESS;
}

cl_int clGetDeviceInfo( cl_device_id id, cl_device_info p, size_t cap, void * out, size_t * ret )
{
    ENTER( nullptr );
    const int d = devOf( id );
    if ( d < 0 )
        return CL_INVALID_DEVICE;
    FAULT( CL_OUT_OF_RESOURCES );
    const ClDeviceConfig & c = g_c.dev[d];
    switch ( p ) {
    case CL_DEVICE_NAME:
        return infoText( "SimCL device " + std::to_string( d ), cap, out, ret );
    case CL_DEVICE_VENDOR:
        return infoText( "SimCL", cap, out, ret );
    case CL_DEVICE_VERSION:
        return infoText( "OpenCL 1.2 SimCL", cap, out, ret );
    case CL_DRIVER_VERSION:
        return infoText( "1", cap, out, ret );
    case CL_DEVICE_EXTENSIONS:
        return infoText( "cl_khr_global_int32_base_atomics cl_khr_byte_addressable_store", cap, out, ret );
    case CL_DEVICE_TYPE:
        return infoVal<cl_device_type>( c.cpu ? CL_DEVICE_TYPE_CPU : CL_DEVICE_TYPE_GPU, cap, out, ret );
    case CL_DEVICE_MAX_MEM_ALLOC_SIZE:
        return infoVal<cl_ulong>( c.maxAlloc, cap, out, ret );
    case CL_DEVICE_GLOBAL_MEM_SIZE:
        return infoVal<cl_ulong>( c.capacity, cap, out, ret );
    case CL_DEVICE_LOCAL_MEM_SIZE:
        return infoVal<cl_ulong>( 32768, cap, out, ret );
    case CL_DEVICE_MEM_BASE_ADDR_ALIGN:
        return infoVal<cl_uint>( c.alignBits, cap, out, ret );
    case CL_DEVICE_MAX_WORK_GROUP_SIZE:
        return infoVal<size_t>( c.wg, cap, out, ret );
    case CL_DEVICE_MAX_WORK_ITEM_DIMENSIONS:
        return infoVal<cl_uint>( 3, cap, out, ret );
    case CL_DEVICE_MAX_WORK_ITEM_SIZES: {
        const size_t s[3] = { c.wg, c.wg, c.wg };
        return info( s, sizeof s, cap, out, ret );
    }
    case CL_DEVICE_MAX_COMPUTE_UNITS:
        return infoVal<cl_uint>( 4, cap, out, ret );
    case CL_DEVICE_ADDRESS_BITS:
        return infoVal<cl_uint>( 64, cap, out, ret );
    case CL_DEVICE_IMAGE_SUPPORT:
        return infoVal<cl_bool>( CL_FALSE, cap, out, ret );
    case CL_DEVICE_AVAILABLE:
    case CL_DEVICE_COMPILER_AVAILABLE:
        return infoVal<cl_bool>( CL_TRUE, cap, out, ret );
    case CL_DEVICE_PLATFORM:
        return infoVal<cl_platform_id>( reinterpret_cast<cl_platform_id>( &g_platform[d >= g_c.devices[0]] ), cap, out, ret );
    }
    return CL_INVALID_VALUE;
}

cl_context clCreateContext( const cl_context_properties *, cl_uint n, const cl_device_id * ids, void( CL_CALLBACK * )( const char *, const void *, size_t, void * ), void *,
                            cl_int * err )
{
    ENTER( nullptr );
    if ( n == 0 || !ids )
        ERRP( CL_INVALID_VALUE );
    const int d = devOf( ids[0] );
    if ( d < 0 || n != 1 )
        ERRP( CL_INVALID_DEVICE );
    if ( g_c.dev[d].broken )
        ERRP( CL_DEVICE_NOT_AVAILABLE );
    FAULTP( CL_OUT_OF_HOST_MEMORY );
    Obj * o = make( K_CONTEXT );
    o->device = d;
    if ( err )
        *err = CL_SUCCESS;
    return reinterpret_cast<cl_context>( o );
}

cl_int clGetContextInfo( cl_context h, cl_context_info p, size_t cap, void * out, size_t * ret )
{
    ENTER( h );
    Obj * o = get( h, K_CONTEXT, __func__ );
    if ( !o )
        return CL_INVALID_CONTEXT;
    FAULT( CL_OUT_OF_RESOURCES );
    switch ( p ) {
    case CL_CONTEXT_NUM_DEVICES:
        return infoVal<cl_uint>( 1, cap, out, ret );
    case CL_CONTEXT_DEVICES:
        return infoVal<cl_device_id>( reinterpret_cast<cl_device_id>( &g_device[o->device] ), cap, out, ret );
    case CL_CONTEXT_REFERENCE_COUNT:
        return infoVal<cl_uint>( cl_uint( o->api + o->impl ), cap, out, ret );
    }
    return CL_INVALID_VALUE;
}

static cl_command_queue createQueue( cl_context h, cl_device_id id, cl_int * err, const char * fn )
{
    Obj * c = get( h, K_CONTEXT, fn );
    if ( !c )
        ERRP( CL_INVALID_CONTEXT );
    if ( devOf( id ) < 0 || devOf( id ) != c->device )
        ERRP( CL_INVALID_DEVICE );
    if ( fault( fn ) )
        ERRP( CL_OUT_OF_RESOURCES );
    Obj * o = make( K_QUEUE );
    o->ctx = ref( c );
    o->device = c->device;
    if ( err )
        *err = CL_SUCCESS;
    return reinterpret_cast<cl_command_queue>( o );
}

cl_command_queue clCreateCommandQueueWithProperties( cl_context h, cl_device_id id, const cl_queue_properties *, cl_int * err )
{
    ENTER( h );
    return createQueue( h, id, err, __func__ );
}
cl_command_queue clCreateCommandQueue( cl_context h, cl_device_id id, cl_command_queue_properties, cl_int * err )
{
    ENTER( h );
    return createQueue( h, id, err, __func__ );
}

cl_int clGetCommandQueueInfo( cl_command_queue h, cl_command_queue_info p, size_t cap, void * out, size_t * ret )
{
    ENTER( h );
    Obj * o = get( h, K_QUEUE, __func__ );
    if ( !o )
        return CL_INVALID_COMMAND_QUEUE;
    FAULT( CL_OUT_OF_RESOURCES );
    switch ( p ) {
    case CL_QUEUE_CONTEXT:
        return infoVal<cl_context>( reinterpret_cast<cl_context>( o->ctx ), cap, out, ret );
    case CL_QUEUE_DEVICE:
        return infoVal<cl_device_id>( reinterpret_cast<cl_device_id>( &g_device[o->device] ), cap, out, ret );
    case CL_QUEUE_REFERENCE_COUNT:
        return infoVal<cl_uint>( cl_uint( o->api ), cap, out, ret );
    }
    return CL_INVALID_VALUE;
}

cl_int clFlush( cl_command_queue h )
{
    ENTER( h );
    if ( !get( h, K_QUEUE, __func__ ) )
        return CL_INVALID_COMMAND_QUEUE;
    FAULT( CL_OUT_OF_RESOURCES );
    return CL_SUCCESS;
}

cl_int clFinish( cl_command_queue h )
{
    ENTER( h );
    Obj * q = get( h, K_QUEUE, __func__ );
    if ( !q )
        return CL_INVALID_COMMAND_QUEUE;
    FAULT( CL_OUT_OF_RESOURCES );
    drain( q );
    return CL_SUCCESS;
}

cl_program clCreateProgramWithSource( cl_context h, cl_uint n, const char ** s, const size_t * len, cl_int * err )
{
    std::string src;
    {
        // the text as the runtime reads it
        for ( cl_uint i = 0; s && i < n; ++i ) {
            if ( !s[i] )
                break;
            if ( len && len[i] ) {
                hostRead( s[i], len[i] );
                rt_enter();
                src.append( s[i], len[i] );
                rt_leave();
            }
            else {
                size_t k = 0;
                for ( ;; ++k ) {
                    if ( k % 64 == 0 || ( k & 7 ) == 0 ) {
                        uintptr_t b;
                        size_t z;
                        if ( live() && sim_block_of( s[i] + k, &b, &z ) && b + z < reinterpret_cast<uintptr_t>( s[i] ) + k + 8 ) {
                            // close to the end of its block
                            sim_read( s[i] + k, 1 );
                            if ( !s[i][k] )
                                break;
                            continue;
                        }
                    }
                    if ( live() )
                        sim_read( s[i] + k, 1 );
                    if ( !s[i][k] )
                        break;
                }
                rt_enter();
                src.append( s[i], k );
                rt_leave();
            }
        }
    }
    ENTER( h );
    Obj * c = get( h, K_CONTEXT, __func__ );
    if ( !c )
        ERRP( CL_INVALID_CONTEXT );
    if ( n == 0 || !s || !s[0] )
        ERRP( CL_INVALID_VALUE );
    FAULTP( CL_OUT_OF_HOST_MEMORY );
    Obj * o = make( K_PROGRAM );
    o->ctx = ref( c );
    o->device = c->device;
    o->src.swap( src );
    std::string().swap( src );
    if ( g_collect ) {
        const uint32_t l = uint32_t( o->src.size() );
        if ( write( g_collectFd, &l, 4 ) != 4 || write( g_collectFd, o->src.data(), l ) != ssize_t( l ) )
            _exit( 73 );
    }
    if ( err )
        *err = CL_SUCCESS;
    return reinterpret_cast<cl_program>( o );
}

cl_int clBuildProgram( cl_program h, cl_uint n, const cl_device_id * ids, const char *, void( CL_CALLBACK * cb )( cl_program, void * ), void * )
{
    ENTER( h );
    Obj * o = get( h, K_PROGRAM, __func__ );
    if ( !o )
        return CL_INVALID_PROGRAM;
    if ( cb || ( n == 0 ) != ( ids == nullptr ) )
        return CL_INVALID_VALUE;
    for ( cl_uint i = 0; i < n; ++i )
        if ( devOf( ids[i] ) != o->device )
            return CL_INVALID_DEVICE;
    if ( fault( __func__ ) ) {
        o->buildFailed = true;
        return live() && sim_draw( ST_CL, 2 ) ? CL_BUILD_PROGRAM_FAILURE : CL_OUT_OF_HOST_MEMORY;
    }
    if ( g_collect ) {
        o->built = true;
        return CL_SUCCESS;
    }
    o->mod = &moduleOf( o->src );
    if ( !o->mod->k ) {
        o->buildFailed = true;
        return CL_BUILD_PROGRAM_FAILURE;
    }
    o->built = true;
    return CL_SUCCESS;
}

cl_int clGetProgramBuildInfo( cl_program h, cl_device_id id, cl_program_build_info p, size_t cap, void * out, size_t * ret )
{
    ENTER( h );
    Obj * o = get( h, K_PROGRAM, __func__ );
    if ( !o )
        return CL_INVALID_PROGRAM;
    if ( devOf( id ) < 0 || devOf( id ) != o->device )
        return CL_INVALID_DEVICE;
    FAULT( CL_OUT_OF_RESOURCES );
    switch ( p ) {
    case CL_PROGRAM_BUILD_LOG:
        return infoText( o->mod ? o->mod->log : "not built", cap, out, ret );
    case CL_PROGRAM_BUILD_STATUS:
        return infoVal<cl_build_status>( o->built ? CL_BUILD_SUCCESS : ( o->buildFailed ? CL_BUILD_ERROR : CL_BUILD_NONE ), cap, out, ret );
    case CL_PROGRAM_BUILD_OPTIONS:
        return infoText( "", cap, out, ret );
    }
    return CL_INVALID_VALUE;
}

cl_int clGetProgramInfo( cl_program h, cl_program_info p, size_t cap, void * out, size_t * ret )
{
    ENTER( h );
    Obj * o = get( h, K_PROGRAM, __func__ );
    if ( !o )
        return CL_INVALID_PROGRAM;
    FAULT( CL_OUT_OF_RESOURCES );
    switch ( p ) {
    case CL_PROGRAM_CONTEXT:
        return infoVal<cl_context>( reinterpret_cast<cl_context>( o->ctx ), cap, out, ret );
    case CL_PROGRAM_NUM_DEVICES:
        return infoVal<cl_uint>( 1, cap, out, ret );
    case CL_PROGRAM_DEVICES:
        return infoVal<cl_device_id>( reinterpret_cast<cl_device_id>( &g_device[o->device] ), cap, out, ret );
    case CL_PROGRAM_REFERENCE_COUNT:
        return infoVal<cl_uint>( cl_uint( o->api ), cap, out, ret );
    case CL_PROGRAM_SOURCE:
        return infoText( o->src, cap, out, ret );
    }
    return CL_INVALID_VALUE;
}

cl_kernel clCreateKernel( cl_program h, const char * name, cl_int * err )
{
    ENTER( h );
    Obj * p = get( h, K_PROGRAM, __func__ );
    if ( !p )
        ERRP( CL_INVALID_PROGRAM );
    if ( !p->built )
        ERRP( CL_INVALID_PROGRAM_EXECUTABLE );
    if ( !name )
        ERRP( CL_INVALID_VALUE );
    const SimclKernel * k = nullptr;
    if ( !g_collect ) {
        for ( k = p->mod->k; k->name; ++k )
            if ( !strcmp( k->name, name ) )
                break;
        if ( !k->name )
            ERRP( CL_INVALID_KERNEL_NAME );
    }
    FAULTP( CL_OUT_OF_HOST_MEMORY );
    Obj * o = make( K_KERNEL );
    o->ctx = ref( p->ctx );
    o->device = p->device;
    o->program = ref( p );
    o->mod = p->mod;
    o->k = k;
    o->name = name;
    if ( k ) {
        o->args.resize( k->n );
        o->argSet.assign( k->n, 0 );
        o->argMem.assign( k->n, nullptr );
    }
    if ( err )
        *err = CL_SUCCESS;
    return reinterpret_cast<cl_kernel>( o );
}

cl_int clSetKernelArg( cl_kernel h, cl_uint i, size_t n, const void * v )
{
    hostRead( v, n );
    ENTER( h );
    Obj * o = get( h, K_KERNEL, __func__ );
    if ( !o )
        return CL_INVALID_KERNEL;
    if ( g_collect )
        return CL_SUCCESS;
    rt_leave();
    if ( live() )
        sim_write( &o->raceTag, 8 ); // not thread-safe for one kernel
    rt_enter();
    if ( i >= o->k->n )
        return CL_INVALID_ARG_INDEX;
    const int kind = o->k->kind[i];
    if ( kind == 2 ) {
        if ( v )
            return CL_INVALID_ARG_VALUE;
        if ( n == 0 )
            return CL_INVALID_ARG_SIZE;
    }
    else if ( n != o->k->size[i] )
        return CL_INVALID_ARG_SIZE;
    else if ( !v && kind == 0 )
        return CL_INVALID_ARG_VALUE;
    Obj * m = nullptr;
    if ( kind == 1 && v ) {
        void * mh;
        memcpy( &mh, v, sizeof mh );
        m = get( mh, K_MEM, __func__ );
        if ( m && m->ctx != o->ctx )
            return CL_INVALID_MEM_OBJECT;
    }
    FAULT( CL_OUT_OF_RESOURCES );
    o->argMem[i] = m;
    o->args[i].assign( 8, 0 );
    if ( kind == 2 ) {
        const uint64_t z = n;
        memcpy( o->args[i].data(), &z, 8 );
    }
    else if ( v )
        memcpy( o->args[i].data(), v, n );
    o->argSet[i] = 1;
    return CL_SUCCESS;
}

static size_t kernelGroup( Obj * o )
{
    const size_t wg = g_c.dev[o->device].wg;
    return std::max<size_t>( 1, wg >> ( fnv( o->name ) & 1 ) ); // a kernel with many registers has smaller groups
}

cl_int clGetKernelWorkGroupInfo( cl_kernel h, cl_device_id id, cl_kernel_work_group_info p, size_t cap, void * out, size_t * ret )
{
    ENTER( h );
    Obj * o = get( h, K_KERNEL, __func__ );
    if ( !o )
        return CL_INVALID_KERNEL;
    if ( id ? devOf( id ) != o->device : false )
        return CL_INVALID_DEVICE;
    FAULT( CL_OUT_OF_RESOURCES );
    switch ( p ) {
    case CL_KERNEL_WORK_GROUP_SIZE:
        return infoVal<size_t>( kernelGroup( o ), cap, out, ret );
    case CL_KERNEL_PREFERRED_WORK_GROUP_SIZE_MULTIPLE:
        return infoVal<size_t>( 1, cap, out, ret );
    case CL_KERNEL_LOCAL_MEM_SIZE:
    case CL_KERNEL_PRIVATE_MEM_SIZE:
        return infoVal<cl_ulong>( 0, cap, out, ret );
    case CL_KERNEL_COMPILE_WORK_GROUP_SIZE: {
        const size_t z[3] = { 0, 0, 0 };
        return info( z, sizeof z, cap, out, ret );
    }
    }
    return CL_INVALID_VALUE;
}

cl_int clGetKernelInfo( cl_kernel h, cl_kernel_info p, size_t cap, void * out, size_t * ret )
{
    ENTER( h );
    Obj * o = get( h, K_KERNEL, __func__ );
    if ( !o )
        return CL_INVALID_KERNEL;
    FAULT( CL_OUT_OF_RESOURCES );
    switch ( p ) {
    case CL_KERNEL_FUNCTION_NAME:
        return infoText( o->name, cap, out, ret );
    case CL_KERNEL_NUM_ARGS:
        return infoVal<cl_uint>( o->k ? o->k->n : 0, cap, out, ret );
    case CL_KERNEL_REFERENCE_COUNT:
        return infoVal<cl_uint>( cl_uint( o->api ), cap, out, ret );
    case CL_KERNEL_CONTEXT:
        return infoVal<cl_context>( reinterpret_cast<cl_context>( o->ctx ), cap, out, ret );
    case CL_KERNEL_PROGRAM:
        return infoVal<cl_program>( reinterpret_cast<cl_program>( o->program ), cap, out, ret );
    }
    return CL_INVALID_VALUE;
}

cl_int clEnqueueNDRangeKernel( cl_command_queue qh, cl_kernel kh, cl_uint dim, const size_t * off, const size_t * glob, const size_t * loc, cl_uint nw, const cl_event * wl,
                               cl_event * ev )
{
    ENTER( qh );
    Obj * q = get( qh, K_QUEUE, __func__ );
    if ( !q )
        return CL_INVALID_COMMAND_QUEUE;
    Obj * k = get( kh, K_KERNEL, __func__ );
    if ( !k )
        return CL_INVALID_KERNEL;
    if ( g_collect ) {
        if ( ev )
            *ev = reinterpret_cast<cl_event>( make( K_EVENT ) );
        return CL_SUCCESS;
    }
    rt_leave();
    if ( live() )
        sim_read( &k->raceTag, 8 );
    rt_enter();
    if ( k->ctx != q->ctx )
        return CL_INVALID_CONTEXT;
    if ( dim < 1 || dim > 3 )
        return CL_INVALID_WORK_DIMENSION;
    if ( !glob )
        return CL_INVALID_GLOBAL_WORK_SIZE;
    for ( char s : k->argSet )
        if ( !s )
            return CL_INVALID_KERNEL_ARGS;
    if ( !waitList( nw, wl, __func__ ) )
        return CL_INVALID_EVENT_WAIT_LIST;
    Cmd c;
    c.dim = dim;
    size_t per = 1;
    for ( cl_uint d = 0; d < dim; ++d ) {
        if ( glob[d] == 0 )
            return CL_INVALID_GLOBAL_WORK_SIZE;
        c.global[d] = glob[d];
        c.offset[d] = off ? off[d] : 0;
        if ( loc ) {
            if ( loc[d] == 0 )
                return CL_INVALID_WORK_GROUP_SIZE;
            if ( loc[d] > g_c.dev[q->device].wg )
                return CL_INVALID_WORK_ITEM_SIZE;
            if ( glob[d] % loc[d] )
                return CL_INVALID_WORK_GROUP_SIZE;
            c.local[d] = loc[d];
            per *= loc[d];
        }
        else if ( d == 0 )
            for ( size_t s = kernelGroup( k ); s; --s )
                if ( glob[0] % s == 0 ) {
                    c.local[0] = s;
                    break;
                }
    }
    if ( per > kernelGroup( k ) )
        return CL_INVALID_WORK_GROUP_SIZE;
    for ( size_t i = 0; i < k->argMem.size(); ++i )
        if ( k->argMem[i] ) {
            void * mh;
            memcpy( &mh, k->args[i].data(), sizeof mh );
            get( mh, K_MEM, __func__ );
        }
    FAULT( live() && sim_draw( ST_CL, 2 ) ? CL_MEM_OBJECT_ALLOCATION_FAILURE : CL_OUT_OF_RESOURCES );
    if ( live() && rt_faults_on() && ev && g_asyncOneIn && sim_chance( ST_CL, 1, g_asyncOneIn ) ) {
        c.fails = true;
        ++g_failed;
        g_lastFailed = "the execution of a kernel";
        sim_count( "fault.kernel execution", 1 );
    }
    c.kernel = ref( k );
    c.args = k->args;
    c.argMem = k->argMem;
    for ( Obj * m : c.argMem )
        ref( m );
    enqueue( q, std::move( c ), ev );
    return CL_SUCCESS;
}

cl_int clWaitForEvents( cl_uint n, const cl_event * l )
{
    ENTER( nullptr );
    if ( n == 0 || !l )
        return CL_INVALID_VALUE;
    bool bad = false;
    for ( cl_uint i = 0; i < n; ++i )
        if ( !get( l[i], K_EVENT, __func__ ) )
            return CL_INVALID_EVENT;
    if ( g_collect )
        return CL_SUCCESS;
    FAULT( CL_OUT_OF_RESOURCES );
    for ( cl_uint i = 0; i < n; ++i ) {
        Obj * e = get( l[i], K_EVENT, __func__ );
        while ( e->status > CL_COMPLETE && !e->queue->pending.empty() )
            runFront( e->queue );
        bad = bad || e->status < 0;
    }
    return bad ? CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST : CL_SUCCESS;
}

cl_int clGetEventInfo( cl_event h, cl_event_info p, size_t cap, void * out, size_t * ret )
{
    ENTER( h );
    Obj * e = get( h, K_EVENT, __func__ );
    if ( !e )
        return CL_INVALID_EVENT;
    FAULT( CL_OUT_OF_RESOURCES );
    progress();
    switch ( p ) {
    case CL_EVENT_COMMAND_EXECUTION_STATUS:
        return infoVal<cl_int>( e->status, cap, out, ret );
    case CL_EVENT_REFERENCE_COUNT:
        return infoVal<cl_uint>( cl_uint( e->api ), cap, out, ret );
    }
    return CL_INVALID_VALUE;
}

cl_mem clCreateBuffer( cl_context h, cl_mem_flags fl, size_t n, void * host, cl_int * err )
{
    ENTER( h );
    Obj * c = get( h, K_CONTEXT, __func__ );
    if ( !c )
        ERRP( CL_INVALID_CONTEXT );
    const bool copy = fl & CL_MEM_COPY_HOST_PTR;
    if ( fl & CL_MEM_USE_HOST_PTR )
        ERRP( CL_INVALID_VALUE );
    if ( copy != ( host != nullptr ) )
        ERRP( CL_INVALID_HOST_PTR );
    const ClDeviceConfig & d = g_c.dev[c->device];
    if ( n == 0 || n > d.maxAlloc )
        ERRP( CL_INVALID_BUFFER_SIZE );
    FAULTP( CL_MEM_OBJECT_ALLOCATION_FAILURE );
    if ( live() && g_usedMem[c->device] + n > d.capacity ) {
        ++g_failed;
        g_lastFailed = "clCreateBuffer: no memory left";
        sim_count( "fault.device memory full", 1 );
        ERRP( CL_MEM_OBJECT_ALLOCATION_FAILURE );
    }
    Obj * o = make( K_MEM );
    o->ctx = ref( c );
    o->device = c->device;
    o->size = n;
    o->data = static_cast<uint8_t *>( malloc( n ) );
    g_usedMem[c->device] += n;
    if ( copy )
        memcpy( o->data, host, n );
    else if ( g_c.junk )
        memset( o->data, g_c.junk, n );
    else
        for ( size_t i = 0; i < n; ++i )
            o->data[i] = uint8_t( ( i * 2654435761u + o->id * 97 ) >> 3 );
    if ( err )
        *err = CL_SUCCESS;
    return reinterpret_cast<cl_mem>( o );
}

cl_mem clCreateSubBuffer( cl_mem h, cl_mem_flags, cl_buffer_create_type t, const void * info_, cl_int * err )
{
    ENTER( h );
    Obj * p = get( h, K_MEM, __func__ );
    if ( !p || p->parent )
        ERRP( CL_INVALID_MEM_OBJECT );
    if ( t != CL_BUFFER_CREATE_TYPE_REGION || !info_ )
        ERRP( CL_INVALID_VALUE );
    const cl_buffer_region r = *static_cast<const cl_buffer_region *>( info_ );
    if ( r.size == 0 )
        ERRP( CL_INVALID_BUFFER_SIZE );
    if ( r.origin + r.size < r.size || r.origin + r.size > p->size )
        ERRP( CL_INVALID_VALUE );
    if ( r.origin % ( g_c.dev[p->device].alignBits / 8 ) )
        ERRP( CL_MISALIGNED_SUB_BUFFER_OFFSET );
    for ( int i = 0; i < g_used; ++i )
        if ( live() && g_obj[i].kind == K_MEM && g_obj[i].parent == p && g_obj[i].api > 0 && r.origin < g_obj[i].origin + g_obj[i].size
             && g_obj[i].origin < r.origin + r.size )
            sim_fail( "device-overlap", "device memory [%zu, %zu) is given out although [%zu, %zu) of the same buffer is still in use", r.origin, r.origin + r.size,
                      g_obj[i].origin, g_obj[i].origin + g_obj[i].size );
    FAULTP( CL_MEM_OBJECT_ALLOCATION_FAILURE );
    Obj * o = make( K_MEM );
    o->ctx = ref( p->ctx );
    o->device = p->device;
    o->parent = ref( p );
    o->origin = r.origin;
    o->size = r.size;
    o->data = p->data + r.origin;
    sim_count( "probe.sub-buffer", 1 );
    if ( err )
        *err = CL_SUCCESS;
    return reinterpret_cast<cl_mem>( o );
}

cl_int clGetMemObjectInfo( cl_mem h, cl_mem_info p, size_t cap, void * out, size_t * ret )
{
    ENTER( h );
    Obj * o = get( h, K_MEM, __func__ );
    if ( !o )
        return CL_INVALID_MEM_OBJECT;
    // only reads what the runtime has at hand: does not fail
    switch ( p ) {
    case CL_MEM_TYPE:
        return infoVal<cl_mem_object_type>( CL_MEM_OBJECT_BUFFER, cap, out, ret );
    case CL_MEM_FLAGS:
        return infoVal<cl_mem_flags>( CL_MEM_READ_WRITE, cap, out, ret );
    case CL_MEM_SIZE:
        return infoVal<size_t>( o->size, cap, out, ret );
    case CL_MEM_CONTEXT:
        return infoVal<cl_context>( reinterpret_cast<cl_context>( o->ctx ), cap, out, ret );
    case CL_MEM_ASSOCIATED_MEMOBJECT:
        return infoVal<cl_mem>( reinterpret_cast<cl_mem>( o->parent ), cap, out, ret );
    case CL_MEM_OFFSET:
        return infoVal<size_t>( o->origin, cap, out, ret );
    case CL_MEM_REFERENCE_COUNT:
        return infoVal<cl_uint>( cl_uint( o->api ), cap, out, ret );
    case CL_MEM_HOST_PTR:
        return infoVal<void *>( nullptr, cap, out, ret );
    }
    return CL_INVALID_VALUE;
}

#define TRANSFER_CHECK( mh )                                                                                                                         \
    Obj * q = get( qh, K_QUEUE, __func__ );                                                                                                          \
    if ( !q )                                                                                                                                        \
        return CL_INVALID_COMMAND_QUEUE;                                                                                                             \
    Obj * m = get( mh, K_MEM, __func__ );                                                                                                            \
    if ( !m )                                                                                                                                        \
        return CL_INVALID_MEM_OBJECT;                                                                                                                \
    if ( m->ctx != q->ctx )                                                                                                                          \
        return CL_INVALID_CONTEXT;                                                                                                                   \
    if ( !waitList( nw, wl, __func__ ) )                                                                                                             \
        return CL_INVALID_EVENT_WAIT_LIST;

static void doneEvent( Obj * q, cl_event * ev )
{
    if ( ev ) {
        Obj * e = make( K_EVENT );
        e->ctx = ref( q->ctx );
        e->queue = q;
        e->status = CL_COMPLETE;
        *ev = reinterpret_cast<cl_event>( e );
    }
}

cl_int clEnqueueWriteBuffer( cl_command_queue qh, cl_mem mh, cl_bool block, size_t off, size_t n, const void * p, cl_uint nw, const cl_event * wl, cl_event * ev )
{
    hostRead( p, n );
    ENTER( mh );
    TRANSFER_CHECK( mh )
    if ( !p || n == 0 || off > m->size || n > m->size - off )
        return CL_INVALID_VALUE;
    const bool f = fault( __func__ );
    if ( f && sim_draw( ST_CL, 2 ) ) {
        drain( q );
        memcpy( m->data + off, p, n / 2 ); // a part has been transferred
    }
    if ( f )
        return CL_OUT_OF_RESOURCES;
    if ( block || g_collect ) {
        drain( q );
        memcpy( m->data + off, p, n );
        doneEvent( q, ev );
    }
    else {
        Cmd c;
        c.kind = 3;
        c.a = ref( m );
        c.aOff = off;
        c.n = n;
        c.hostIn = p;
        enqueue( q, std::move( c ), ev );
    }
    return CL_SUCCESS;
}

cl_int clEnqueueReadBuffer( cl_command_queue qh, cl_mem mh, cl_bool block, size_t off, size_t n, void * p, cl_uint nw, const cl_event * wl, cl_event * ev )
{
    hostWrite( p, n );
    ENTER( mh );
    TRANSFER_CHECK( mh )
    if ( !p || n == 0 || off > m->size || n > m->size - off )
        return CL_INVALID_VALUE;
    const bool f = fault( __func__ );
    if ( f && sim_draw( ST_CL, 2 ) ) {
        drain( q );
        memcpy( p, m->data + off, n / 2 );
    }
    if ( f )
        return CL_OUT_OF_RESOURCES;
    if ( block || g_collect ) {
        drain( q );
        memcpy( p, m->data + off, n );
        doneEvent( q, ev );
    }
    else {
        Cmd c;
        c.kind = 4;
        c.a = ref( m );
        c.aOff = off;
        c.n = n;
        c.host = p;
        enqueue( q, std::move( c ), ev );
    }
    return CL_SUCCESS;
}

static cl_int rect( cl_command_queue qh, cl_mem mh, cl_bool block, const size_t * bo, const size_t * ho, const size_t * rg, size_t brp, size_t bsp, size_t hrp, size_t hsp,
                    uint8_t * host, bool toDevice, cl_uint nw, const cl_event * wl, cl_event * ev, const char * fn )
{
    ENTER( mh );
    TRANSFER_CHECK( mh )
    if ( !host || !bo || !ho || !rg || !rg[0] || !rg[1] || !rg[2] )
        return CL_INVALID_VALUE;
    if ( brp == 0 )
        brp = rg[0];
    if ( hrp == 0 )
        hrp = rg[0];
    if ( bsp == 0 )
        bsp = rg[1] * brp;
    if ( hsp == 0 )
        hsp = rg[1] * hrp;
    if ( brp < rg[0] || hrp < rg[0] || bsp < rg[1] * brp || hsp < rg[1] * hrp || bsp % brp || hsp % hrp || rg[2] != 1 )
        return CL_INVALID_VALUE;
    const size_t b0 = bo[2] * bsp + bo[1] * brp + bo[0], h0 = ho[2] * hsp + ho[1] * hrp + ho[0];
    if ( b0 + ( rg[1] - 1 ) * brp + rg[0] > m->size )
        return CL_INVALID_VALUE;
    if ( !block )
        fatal( "pending rectangle transfers are not supported", "" );
    rt_leave();
    for ( size_t y = 0; y < rg[1]; ++y )
        if ( toDevice )
            hostRead( host + h0 + y * hrp, rg[0] );
        else
            hostWrite( host + h0 + y * hrp, rg[0] );
    rt_enter();
    size_t rows = rg[1];
    const bool f = fault( fn );
    if ( f )
        rows = sim_draw( ST_CL, 2 ) ? rows / 2 : 0;
    drain( q );
    for ( size_t y = 0; y < rows; ++y )
        if ( toDevice )
            memcpy( m->data + b0 + y * brp, host + h0 + y * hrp, rg[0] );
        else
            memcpy( host + h0 + y * hrp, m->data + b0 + y * brp, rg[0] );
    if ( f )
        return CL_OUT_OF_RESOURCES;
    doneEvent( q, ev );
    return CL_SUCCESS;
}

cl_int clEnqueueReadBufferRect( cl_command_queue qh, cl_mem mh, cl_bool b, const size_t * bo, const size_t * ho, const size_t * rg, size_t brp, size_t bsp, size_t hrp,
                                size_t hsp, void * p, cl_uint nw, const cl_event * wl, cl_event * ev )
{
    return rect( qh, mh, b, bo, ho, rg, brp, bsp, hrp, hsp, static_cast<uint8_t *>( p ), false, nw, wl, ev, __func__ );
}
cl_int clEnqueueWriteBufferRect( cl_command_queue qh, cl_mem mh, cl_bool b, const size_t * bo, const size_t * ho, const size_t * rg, size_t brp, size_t bsp, size_t hrp,
                                 size_t hsp, const void * p, cl_uint nw, const cl_event * wl, cl_event * ev )
{
    return rect( qh, mh, b, bo, ho, rg, brp, bsp, hrp, hsp, static_cast<uint8_t *>( const_cast<void *>( p ) ), true, nw, wl, ev, __func__ );
}

cl_int clEnqueueCopyBuffer( cl_command_queue qh, cl_mem sh, cl_mem dh, size_t so, size_t dstOff, size_t n, cl_uint nw, const cl_event * wl, cl_event * ev )
{
    ENTER( sh );
    TRANSFER_CHECK( sh )
    Obj * d = get( dh, K_MEM, __func__ );
    if ( !d )
        return CL_INVALID_MEM_OBJECT;
    if ( d->ctx != q->ctx )
        return CL_INVALID_CONTEXT;
    if ( n == 0 || so > m->size || n > m->size - so || dstOff > d->size || n > d->size - dstOff )
        return CL_INVALID_VALUE;
    if ( m->data + so < d->data + dstOff + n && d->data + dstOff < m->data + so + n )
        return CL_MEM_COPY_OVERLAP;
    FAULT( CL_OUT_OF_RESOURCES );
    Cmd c;
    c.kind = 1;
    c.a = ref( m );
    c.b = ref( d );
    c.aOff = so;
    c.bOff = dstOff;
    c.n = n;
    enqueue( q, std::move( c ), ev );
    return CL_SUCCESS;
}

cl_int clEnqueueFillBuffer( cl_command_queue qh, cl_mem mh, const void * pat, size_t pn, size_t off, size_t n, cl_uint nw, const cl_event * wl, cl_event * ev )
{
    hostRead( pat, pn );
    ENTER( mh );
    TRANSFER_CHECK( mh )
    if ( !pat || pn == 0 || pn > 128 || ( pn & ( pn - 1 ) ) || off % pn || n % pn || off > m->size || n > m->size - off )
        return CL_INVALID_VALUE;
    FAULT( CL_OUT_OF_RESOURCES );
    Cmd c;
    c.kind = 2;
    c.a = ref( m );
    c.aOff = off;
    c.n = n;
    c.pattern.assign( static_cast<const uint8_t *>( pat ), static_cast<const uint8_t *>( pat ) + pn );
    enqueue( q, std::move( c ), ev );
    return CL_SUCCESS;
}

// there are no image objects on the simulated devices
cl_int clEnqueueReadImage( cl_command_queue, cl_mem h, cl_bool, const size_t *, const size_t *, size_t, size_t, void *, cl_uint, const cl_event *, cl_event * )
{
    ENTER( h );
    get( h, K_MEM, __func__ );
    return CL_INVALID_MEM_OBJECT;
}
cl_int clEnqueueWriteImage( cl_command_queue, cl_mem h, cl_bool, const size_t *, const size_t *, size_t, size_t, const void *, cl_uint, const cl_event *, cl_event * )
{
    ENTER( h );
    get( h, K_MEM, __func__ );
    return CL_INVALID_MEM_OBJECT;
}

#define REFCOUNT( NAME, TYPE, KIND, BAD )                                                                                                            \
    cl_int clRelease##NAME( TYPE h )                                                                                                                 \
    {                                                                                                                                                \
        ENTER( h );                                                                                                                                  \
        return release( h, KIND, __func__, BAD );                                                                                                    \
    }                                                                                                                                                \
    cl_int clRetain##NAME( TYPE h )                                                                                                                  \
    {                                                                                                                                                \
        ENTER( h );                                                                                                                                  \
        return retain( h, KIND, __func__, BAD );                                                                                                     \
    }
REFCOUNT( Context, cl_context, K_CONTEXT, CL_INVALID_CONTEXT )
REFCOUNT( CommandQueue, cl_command_queue, K_QUEUE, CL_INVALID_COMMAND_QUEUE )
REFCOUNT( Program, cl_program, K_PROGRAM, CL_INVALID_PROGRAM )
REFCOUNT( Kernel, cl_kernel, K_KERNEL, CL_INVALID_KERNEL )
REFCOUNT( MemObject, cl_mem, K_MEM, CL_INVALID_MEM_OBJECT )
REFCOUNT( Event, cl_event, K_EVENT, CL_INVALID_EVENT )

// ---------------------------------------------------------------------------------------------------- control
void cl_begin( const ClConfig & c )
{
    rt_enter();
    g_c = c;
    rt_leave();
}
void cl_faults( uint32_t oneIn )
{
    g_oneIn = oneIn;
}
void cl_fail_at( uint32_t k )
{
    g_failAt = k;
}
void cl_fail_name( const char * part, uint32_t k )
{
    g_namePart = part;
    g_nameAt = k;
}
void cl_lost_at( uint32_t k )
{
    g_lostAt = k;
}
void cl_async_faults( uint32_t oneIn )
{
    g_asyncOneIn = oneIn;
}
void cl_faults_off()
{
    g_oneIn = g_failAt = g_lostAt = g_nameAt = g_asyncOneIn = 0;
    g_lost = false;
}
void cl_set_broken( int device, bool broken )
{
    g_c.dev[device].broken = broken;
}
uint64_t cl_calls()
{
    return g_calls;
}
uint64_t cl_failed()
{
    return g_failed;
}
const char * cl_last_failed()
{
    return g_lastFailed;
}
static Obj * door( const void * mem, size_t n )
{
    drainAll();
    Obj * m = get( mem, K_MEM, "back door" );
    if ( !m || n > m->size )
        sim_fail( "device-buffer", "the device memory of an image has %zu bytes instead of %zu", m ? m->size : 0, n );
    return m;
}
void cl_peek( const void * mem, void * out, size_t n )
{
    rt_enter();
    memcpy( out, door( mem, n )->data, n );
    rt_leave();
}
void cl_poke( const void * mem, const void * in, size_t n )
{
    rt_enter();
    memcpy( door( mem, n )->data, in, n );
    rt_leave();
}
size_t cl_mem_size( const void * mem )
{
    return get( mem, K_MEM, "back door" )->size;
}
int cl_mem_device( const void * mem )
{
    return get( mem, K_MEM, "back door" )->device;
}
uint64_t cl_device_used( int device )
{
    return g_usedMem[device];
}
uint64_t cl_live( char * buf, size_t n )
{
    uint64_t k = 0;
    size_t l = 0;
    if ( n )
        buf[0] = 0;
    for ( int i = 0; i < g_used; ++i )
        if ( g_obj[i].kind != K_FREE && g_obj[i].api > 0 ) {
            if ( k < 8 && l < n )
                l += size_t( snprintf( buf + l, n - l, "%s%s%s%s (%d)", k ? ", " : "", kindName[g_obj[i].kind], g_obj[i].kind == K_KERNEL ? " " : "",
                                       g_obj[i].name.c_str(), g_obj[i].api ) );
            ++k;
        }
    return k;
}
void cl_check_released()
{
    static char b[600];
    const uint64_t n = cl_live( b, sizeof b );
    if ( n )
        sim_fail( "cl-leak", "%llu OpenCL objects have never been released: %s", static_cast<unsigned long long>( n ), b );
}
bool cl_collecting()
{
    return g_collect;
}

void cl_warm( void ( *fn )() )
{
    int p[2];
    if ( pipe( p ) )
        _exit( 74 );
    const pid_t pid = fork();
    if ( pid == 0 ) {
        close( p[0] );
        g_collect = true;
        g_collectFd = p[1];
        alarm( 60 );
        fn();
        _exit( 0 );
    }
    close( p[1] );
    std::vector<std::string> src;
    uint32_t n;
    auto full = [&]( void * out, size_t k ) {
        char * o = static_cast<char *>( out );
        while ( k ) {
            const ssize_t r = read( p[0], o, k );
            if ( r <= 0 )
                return false;
            o += r;
            k -= size_t( r );
        }
        return true;
    };
    while ( full( &n, 4 ) ) {
        std::string s( n, 0 );
        if ( n && !full( &s[0], n ) )
            break;
        src.push_back( s );
    }
    close( p[0] );
    int st;
    waitpid( pid, &st, 0 );
    if ( !( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) )
        fprintf( stderr, "simcl: the warm-up has ended with %d\n", st );
    for ( const std::string & s : src )
        moduleOf( s );
}
}
