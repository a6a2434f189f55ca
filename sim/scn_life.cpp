// Scenario for objects which exist as long as the process: C31
#include "life.h"
#include "rt.h"
#include "fft.h"
#include "filtering.h"
#include "function_pool.h"
#include "image_function.h"
#include "image_function_helper.h"
#include "memory/cpu_memory.h"
#include "penguinv_exception.h"
#include "thread_pool.h"
#include <atomic>
#include <cstring>
#include <stdexcept>
#include <thread>
#include <vector>

namespace
{
    using penguinV::Image;
    using penguinV::Image16Bit;

    const uint32_t N = 4; // objects of each kind

    void fail( const char * cls, const char * text )
    {
        SimRt rt;
        sim_fail( cls, "%s", text );
    }

    // --- images; what they must contain until they are destroyed
    template <typename T>
    struct Owner
    {
        penguinV::ImageTemplate<T> image;
        uint32_t w = 0, h = 0;
        uint8_t cc = 1;
        uint32_t value = 0;
        T at( uint32_t x, uint32_t y ) const
        {
            return T( value * 31 + x * 7 + y * 13 );
        }
        void fill()
        {
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w * cc; ++x )
                    image.data()[size_t( y ) * image.rowSize() + x] = at( x, y );
        }
        void check( const char * when ) const
        {
            if ( image.width() != w || image.height() != h || ( w && image.colorCount() != cc ) )
                fail( "image-geometry", when );
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w * cc; ++x )
                    if ( image.data()[size_t( y ) * image.rowSize() + x] != at( x, y ) )
                        fail( "image-contents", when );
        }
        void forget()
        {
            w = image.width();
            h = image.height();
            cc = w ? image.colorCount() : 1;
        }
        ~Owner()
        {
            check( "an image with static storage duration has changed before its destruction" );
        }
    };

    struct Fft
    {
        FFT::ComplexData data;
        bool filled = false;
        ~Fft()
        {
            if ( filled && data.empty() )
                fail( "image-contents", "FFT data with static storage duration has disappeared before its destruction" );
        }
    };

    std::atomic<uint32_t> g_started( 0 ), g_finished( 0 );

    struct Provider : TaskProviderSingleton
    {
        std::atomic<uint32_t> run{ 0 };
        uint32_t maximum = 0;
        std::vector<uint8_t> seen;
        void start( uint32_t n )
        {
            if ( !_ready() )
                return;
            {
                SimRt rt;
                seen.assign( n, 0 );
            }
            maximum = n;
            run = 0;
            _run( n );
        }
        bool wait()
        {
            return _wait();
        }
        virtual ~Provider()
        {
            _wait();
            if ( run > maximum )
                fail( "repeated-task", "a task provider has run more tasks than it was given" );
        }

    protected:
        virtual void _task( size_t id ) override
        {
            ++g_started;
            {
                SimRt rt;
                if ( id >= seen.size() || seen[id]++ )
                    sim_fail( "repeated-task", "task %zu runs again", id );
            }
            ++run;
            ++g_finished;
        }
    };

    struct OwnProvider : TaskProvider
    {
        OwnProvider( ThreadPool * p )
            : TaskProvider( p )
        {}
        std::atomic<uint32_t> run{ 0 };
        uint32_t maximum = 0;
        void start( uint32_t n )
        {
            if ( !_ready() )
                return;
            maximum = n;
            run = 0;
            _run( n );
        }
        bool wait()
        {
            return _wait();
        }
        virtual ~OwnProvider()
        {
            _wait();
            if ( run > maximum )
                fail( "repeated-task", "a task provider has run more tasks than it was given" );
        }

    protected:
        virtual void _task( size_t ) override
        {
            ++g_started;
            ++run;
            ++g_finished;
        }
    };

    using life::make;
    life::Place<Owner<uint8_t>> imgP[N];
    life::Place<Owner<uint16_t>> img16P[N];
    life::Place<Fft> fftP[N];
    life::Place<Provider> provP[N];
    life::Place<ThreadPool> poolP[N];
    life::Place<OwnProvider> ownP[N];

    uint64_t g_serial;
    bool g_faults;

    void last()
    {
        if ( sim_thread_count_live() > 1 )
            sim_fail( "thread-left", "%d threads of the library are alive at the end of the process", sim_thread_count_live() - 1 );
        char b[400];
        if ( sim_live_blocks( g_serial, b, sizeof b ) != 0 )
            sim_fail( "leak", "the end of the process leaks:%s", b );
        if ( g_started != g_finished )
            sim_fail( "unfinished-task", "a started task has not finished" );
    }

    template <typename F>
    void attempt( F f )
    {
        try {
            SimSut sut;
            f();
        }
        catch ( const std::bad_alloc & ) {
            if ( !g_faults )
                fail( "unexpected-exception", "no memory although no allocation fails" );
            sim_count( "probe.failed-operation", 1 );
        }
        catch ( const std::exception & e ) {
            if ( !g_faults ) {
                SimRt rt;
                sim_fail( "unexpected-exception", "%s", e.what() );
            }
            sim_count( "probe.failed-operation", 1 );
        }
    }

    template <typename T>
    void imageOp( Owner<T> & o, Owner<T> * other )
    {
        const uint32_t op = sim_choose( 5 ), w = 1 + sim_choose( 20 ), h = 1 + sim_choose( 12 ), v = sim_choose( 200 );
        const uint8_t cc = uint8_t( sim_choose( 2 ) ? 3 : 1 );
        attempt( [&] {
            switch ( op ) {
            case 0:
                o.image.resize( w, h );
                break;
            case 1: {
                penguinV::ImageTemplate<T> i( w, h, cc );
                o.image = std::move( i );
                break;
            }
            case 2:
                if ( other )
                    o.image = other->image;
                break;
            case 3:
                o.image.clear();
                break;
            default: {
                const penguinV::ImageTemplate<T> i( w, h, cc, 4 );
                o.image = i;
                break;
            }
            }
        } );
        o.forget();
        o.value = v;
        o.fill();
    }

    void call( uint32_t what, uint32_t w, uint32_t h, uint32_t v )
    {
        attempt( [&] {
            Image a( w, h );
            a.fill( uint8_t( v ) );
            Image r;
            switch ( what ) {
            case 0:
                r = Image_Function::Invert( a );
                break;
            case 1:
                r = Function_Pool::Invert( a );
                break;
            case 2:
                r = Image_Function_Helper::ConvertToRgb( Image_Function::ConvertToRgb, a );
                break;
            default: {
                FFT::FFTExecutor e( w, h );
                FFT::ComplexData d;
                d.set( a );
                e.directTransform( d );
                e.inverseTransform( d );
                return;
            }
            }
            if ( what < 2 && ( r.width() != w || r.data()[0] != uint8_t( ~v ) ) )
                fail( "wrong-result", "Invert" );
        } );
    }

    void step( uint32_t t, uint32_t threads ) // objects t, t + threads, ... belong to the thread
    {
        uint32_t i = t + threads * sim_choose( N / threads );
        uint32_t k = sim_choose( 16 );
        switch ( k ) {
        case 0:
        case 1:
            make( imgP[i] );
            break;
        case 2:
            make( img16P[i] );
            break;
        case 3:
            make( fftP[i] );
            break;
        case 4:
            make( provP[i] );
            break;
        case 5: {
            const uint32_t n = 1 + sim_choose( 3 );
            attempt( [&] { make( poolP[i], size_t( n ) ); } );
            break;
        }
        case 6:
            if ( poolP[i].have )
                make( ownP[i], poolP[i].get() );
            break;
        case 7: {
            static const size_t sz[] = { 256, 4096, 65536, 1u << 20 };
            const size_t n = sz[sim_choose( 4 )];
            attempt( [&] {
                try {
                    cpu_Memory::MemoryAllocator::instance().reserve( n );
                }
                catch ( const std::logic_error & ) { // there are blocks in use
                }
            } );
            sim_count( "probe.reserve", 1 );
            break;
        }
        case 8: {
            const uint32_t n = 1 + sim_choose( 4 );
            attempt( [&] { ThreadPoolMonoid::instance().resize( n ); } );
            break;
        }
        case 9: {
            const uint32_t what = sim_choose( 4 ), w = 1 + sim_choose( 20 ), h = 1 + sim_choose( 8 ), v = sim_choose( 256 );
            if ( what == 1 )
                attempt( [&] {
                    if ( ThreadPoolMonoid::instance().threadCount() == 0 )
                        ThreadPoolMonoid::instance().resize( 2 );
                } );
            if ( what != 1 || ThreadPoolMonoid::instance().threadCount() > 0 )
                call( what, w, h, v );
            break;
        }
        case 10:
        case 11: {
            if ( !imgP[i].have )
                make( imgP[i] );
            else
                imageOp( *imgP[i].get(), threads == 1 && imgP[( i + 1 ) % N].have ? imgP[( i + 1 ) % N].get() : nullptr );
            break;
        }
        case 12:
            if ( img16P[i].have )
                imageOp( *img16P[i].get(), static_cast<Owner<uint16_t> *>( nullptr ) );
            break;
        case 13:
            if ( fftP[i].have ) {
                Fft & f = *fftP[i].get();
                const uint32_t w = 1 + sim_choose( 12 ), h = 1 + sim_choose( 8 );
                attempt( [&] {
                    f.data.resize( w, h );
                    f.filled = true;
                } );
                if ( f.data.empty() )
                    f.filled = false;
            }
            break;
        case 14: {
            if ( !provP[i].have )
                break;
            const uint32_t n = 1 + sim_choose( 5 );
            const bool wait = sim_choose( 3 ) == 0;
            Provider & p = *provP[i].get();
            attempt( [&] {
                if ( ThreadPoolMonoid::instance().threadCount() == 0 )
                    ThreadPoolMonoid::instance().resize( 1 + n % 3 );
                p.start( n );
                if ( wait )
                    p.wait();
            } );
            if ( !wait )
                sim_count( "probe.batch-at-exit", 1 );
            break;
        }
        default: {
            if ( !ownP[i].have )
                break;
            const uint32_t n = 1 + sim_choose( 5 );
            const bool wait = sim_choose( 3 ) == 0;
            OwnProvider & p = *ownP[i].get();
            attempt( [&] {
                p.start( n );
                if ( wait )
                    p.wait();
            } );
            break;
        }
        }
    }

    void lifetime()
    {
        g_serial = sim_alloc_serial();
        sim_at_end( last );
        const uint32_t threads = sim_choose( 3 ) == 2 ? 2 : 1;
        const uint32_t before = sim_choose( 6 ), during = 1 + sim_choose( 8 ), after = sim_choose( 5 );
        g_faults = sim_choose( 4 ) == 3;
        if ( g_faults )
            sim_alloc_faults( 6 + sim_choose( 40 ) );
        for ( uint32_t k = 0; k < before; ++k )
            step( 0, 1 );
        if ( threads == 1 ) {
            for ( uint32_t k = 0; k < during; ++k )
                step( 0, 1 );
        }
        else {
            sim_count( "probe.threads", 1 );
            std::vector<std::thread> t;
            for ( uint32_t i = 0; i < threads; ++i )
                t.emplace_back( [i, during, threads] {
                    for ( uint32_t k = 0; k < during; ++k )
                        step( i, threads );
                } );
            for ( std::thread & x : t )
                x.join();
        }
        for ( uint32_t k = 0; k < after; ++k )
            step( 0, 1 );
        sim_exit_normally();
    }

    SimScenario s1( "life", lifetime );
}
