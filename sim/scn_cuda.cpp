// C27: the CUDA part of the library on simulated devices
#include "disk.h"
#include "life.h"
#include "ops.h"
#include "rt.h"
#include "simcuda.h"
#include "image_function_helper.h"
#include "cuda/cuda_device.cuh"
#include "cuda/cuda_fft.cuh"
#include "cuda/cuda_helper.cuh"
#include "cuda/cuda_types.cuh"
#include "cuda/filtering_cuda.cuh"
#include "cuda/image_buffer_cuda.cuh"
#include "cuda/image_buffer_cuda_pinned.cuh"
#include "cuda/image_function_cuda.cuh"
#include "filtering.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace
{
    namespace cuf
    {
        namespace NS = Image_Function_Cuda;
#define OPS_COPY
#define OPS_SETPIXEL
#define OPS_NO_TRANSPOSE
#define OPS_NO_NORMALIZE
#define OPS_GETTHRESHOLD
#include "op_exec.inc"
    }

    using multiCuda::CudaDeviceManager;
    using penguinV::Image;
    using penguinV::ImageCuda;
    using penguinV::ImageCudaPinned;

    const int FN[] = { ops::AbsoluteDifference, ops::BitwiseAnd, ops::BitwiseOr, ops::BitwiseXor, ops::Maximum, ops::Minimum, ops::Subtract,
                       ops::Invert, ops::GammaCorrection, ops::LookupTable, ops::Threshold1, ops::Threshold2, ops::ConvertToGrayScale, ops::ConvertToRgb,
                       ops::Copy, ops::ExtractChannel, ops::Fill, ops::Flip, ops::Histogram, ops::IsEqual, ops::ProjectionProfile, ops::GetThreshold,
                       ops::SetPixel1, ops::SetPixel2 };
    const uint32_t FNS = sizeof FN / sizeof *FN;

    CudaDeviceManager & man()
    {
        return CudaDeviceManager::instance();
    }

    struct Outcome
    {
        bool thrown = false;
        std::string what;
    };

    template <typename F>
    Outcome attempt( const F & f )
    {
        Outcome o;
        SimSut sut;
        try {
            f();
        }
        catch ( const std::exception & e ) {
            o.thrown = true;
            SimRt rt;
            o.what = e.what();
        }
        catch ( ... ) {
            o.thrown = true;
        }
        return o;
    }

    [[noreturn]] void bad( const char * cls, const std::string & s )
    {
        SimRt rt;
        sim_fail( cls, "%s", s.c_str() );
    }

    template <typename F>
    void mustWork( const char * what, const F & f )
    {
        const Outcome o = attempt( f );
        if ( o.thrown )
            bad( "unexpected-exception", std::string( what ) + " fails: " + o.what );
    }

    CudaConfig config( int maxDevices )
    {
        static const uint32_t threads[] = { 32, 64, 96, 160, 256, 512, 1024 };
        static const uint32_t dims[] = { 1024, 1, 2, 3, 8, 32, 64, 100 };
        CudaConfig k;
        k.devices = maxDevices > 1 ? 2 + int( sim_choose( uint32_t( maxDevices - 1 ) ) ) : 1;
        for ( int i = 0; i < k.devices; ++i ) {
            k.threads[i] = threads[sim_choose( sizeof threads / sizeof *threads )];
            const bool real = sim_choose( 2 ) == 0;
            for ( int j = 0; j < 3; ++j )
                k.dim[i][j] = real ? ( j < 2 ? 1024 : 64 ) : dims[sim_choose( sizeof dims / sizeof *dims )];
        }
        k.capacity = 1u << 22;
        k.reuse = sim_choose( 2 ) != 0;
        k.eager = sim_choose( 9 );
        k.junk = sim_choose( 2 ) ? 0xCD : uint8_t( sim_choose( 256 ) );
        k.order = sim_choose( 4 );
        return k;
    }

    ops::Limits limits()
    {
        ops::Limits lim;
        lim.maxBytes = sim_choose( 6 ) == 0 ? 900 : 240;
        lim.maxSide = 20;
        return lim;
    }

    // --- images on a device
    bool g_userCopies = false; // data of images is transferred as a user would do it instead of looking into the memory of a device

    template <typename T>
    void upload( T * p, const void * data, size_t n )
    {
        if ( g_userCopies ) {
            SimSut sut;
            if ( cudaMemcpy( p, data, n, cudaMemcpyHostToDevice ) != cudaSuccess )
                sim_fail( "harness", "data cannot be copied to a device" );
            return;
        }
        cuda_finish();
        cuda_poke( p, data, n );
    }
    template <typename T>
    void download( const T * p, void * data, size_t n )
    {
        if ( g_userCopies ) {
            SimSut sut;
            if ( cudaMemcpy( data, p, n, cudaMemcpyDeviceToHost ) != cudaSuccess )
                sim_fail( "harness", "data cannot be copied from a device" );
            return;
        }
        cuda_finish();
        cuda_peek( p, data, n );
    }

    void devImage( Image & i, const ops::RImg & r )
    {
        i = ImageCuda( r.w, r.h, uint8_t( r.cc ), uint8_t( r.al ) );
        if ( r.d.empty() )
            return;
        if ( i.empty() || i.width() != r.w || i.height() != r.h || i.colorCount() != r.cc || i.rowSize() != r.rs || i.type() != 1 )
            sim_fail( "image-geometry", "a new device image of %ux%ux%u aligned to %u has another geometry or type", r.w, r.h, r.cc, r.al );
        if ( cuda_mem_size( i.data() ) < r.d.size() )
            sim_fail( "image-memory", "a device image of %zu bytes has %zu bytes of memory", r.d.size(), cuda_mem_size( i.data() ) );
        upload( i.data(), r.d.data(), r.d.size() );
    }

    void hostCopy( const Image & d, Image & h )
    {
        if ( d.type() != 1 )
            sim_fail( "image-type", "an image of type %d instead of a device image", d.type() );
        if ( d.empty() ) {
            h = Image();
            return;
        }
        h = Image( d.width(), d.height(), d.colorCount(), d.alignment() );
        if ( h.rowSize() != d.rowSize() || cuda_mem_size( d.data() ) < size_t( h.rowSize() ) * h.height() )
            sim_fail( "image-memory", "a device image of %ux%ux%u has %zu bytes of memory", d.width(), d.height(), d.colorCount(), cuda_mem_size( d.data() ) );
        uint8_t * p = h.data();
        const size_t n = size_t( h.rowSize() ) * h.height();
        sim_write( p, n );
        download( d.data(), p, n );
    }

    bool onlyGray( const ops::Case & c )
    {
        switch ( c.fn ) {
        case ops::GammaCorrection:
        case ops::Flip:
        case ops::Histogram:
        case ops::Threshold1:
        case ops::Threshold2:
            return true;
        case ops::Fill:
            return c.form >= 2 || c.out[0].rs != c.out[0].w * c.out[0].cc;
        default:
            return false;
        }
    }

    // Otsu's threshold of a histogram; the answer itself if it separates the classes as well as the best one
    template <typename N>
    N otsu( const std::vector<uint32_t> & hist, N answer )
    {
        long double n = 0, sum = 0, below = 0, sumBelow = 0, best = -1, own = -2;
        for ( size_t i = 0; i < hist.size(); ++i ) {
            n += hist[i];
            sum += (long double)( hist[i] ) * i;
        }
        N found = 0;
        for ( size_t i = 0; i < hist.size(); ++i ) {
            below += hist[i];
            sumBelow += (long double)( hist[i] ) * i;
            if ( below == n )
                break;
            if ( below == 0 )
                continue;
            const long double d = sumBelow / below - ( sum - sumBelow ) / ( n - below );
            const long double v = below / n * ( 1 - below / n ) * d * d;
            if ( v > best ) {
                best = v;
                found = N( i );
            }
            if ( N( i ) == answer )
                own = v;
        }
        return own >= best * ( 1 - 1e-10L ) ? answer : found;
    }

    struct Call
    {
        ops::Case c;
        ops::Live d;
        bool thrown = false;
        std::string what;

        std::string text() const
        {
            char b[200];
            snprintf( b, sizeof b, "CUDA %s (form %d, %ux%u, %u colours%s)", ops::name( c.fn ), c.form, c.w, c.h, c.nin ? c.in[0].cc : c.out[0].cc,
                      c.inPlace ? ", in place" : "" );
            return b;
        }
        void gen( int fn, const ops::Limits & lim )
        {
            ops::generate( c, fn, lim );
        }
        void build()
        {
            SimSut sut;
            for ( int i = 0; i < c.nin; ++i )
                devImage( d.in[i], c.in[i] );
            if ( !c.inPlace )
                for ( int i = 0; i < c.nout; ++i )
                    devImage( d.out[i], c.out[i] );
            d.vec = c.vec0;
        }
        void call( bool sync = false )
        {
            const Outcome o = attempt( [this, sync] {
                cuf::exec( c, d );
                if ( sync )
                    man().device().synchronize();
            } );
            thrown = o.thrown;
            SimRt rt;
            what = o.what;
        }
        bool unsupported() const
        {
            return onlyGray( c ) && ( ( c.nin && c.in[0].cc != 1 ) || ( c.nout && c.out[0].cc != 1 ) );
        }
        void down( ops::Live & h )
        {
            for ( int i = 0; i < c.nin; ++i )
                hostCopy( d.in[i], h.in[i] );
            if ( !c.inPlace )
                for ( int i = 0; i < c.nout; ++i )
                    hostCopy( d.out[i], h.out[i] );
            if ( c.retImg && !thrown )
                hostCopy( d.img, h.img );
            SimRt rt;
            h.vec = d.vec;
            h.num = d.num;
        }
        void check( const char * context )
        {
            ops::Live h;
            std::string why;
            down( h );
            if ( thrown ) {
                if ( !unsupported() )
                    bad( "unexpected-exception", context + text() + ": " + what );
                if ( !ops::inputsIntact( c, h, why ) )
                    bad( "input-changed", context + text() + ": " + why );
                return;
            }
            if ( !ops::inputsIntact( c, h, why ) )
                bad( "input-changed", context + text() + ": " + why );
            if ( c.fn == ops::GetThreshold )
                c.num = otsu( c.vec0, h.num );
            if ( !ops::resultsExact( c, h, why ) )
                bad( "wrong-result", context + text() + ": " + why );
            sim_count( "probe.checked-call", 1 );
        }
        void checkFailed( const char * context )
        {
            ops::Live h;
            std::string why;
            down( h );
            if ( !ops::inputsIntact( c, h, why ) )
                bad( "failed-call-damage", context + text() + ": " + why );
            if ( !ops::outsideIntact( c, h, why ) )
                bad( "failed-call-damage", context + text() + ": " + why );
        }
        void release()
        {
            SimSut sut;
            d = ops::Live();
        }
    };

    // --- kernels of a user
    void touch1( uint32_t * c, uint32_t w )
    {
        const uint32_t x = blockDim.x * blockIdx.x + threadIdx.x;
        if ( x < w )
            atomicAdd( &c[x], 1 );
    }
    void touch2( uint32_t * c, uint32_t w, uint32_t h )
    {
        const uint32_t x = blockDim.x * blockIdx.x + threadIdx.x;
        const uint32_t y = blockDim.y * blockIdx.y + threadIdx.y;
        if ( x < w && y < h )
            atomicAdd( &c[y * w + x], 1 );
    }
    void touch3( uint32_t * c, uint32_t w, uint32_t h, uint32_t d )
    {
        const uint32_t x = blockDim.x * blockIdx.x + threadIdx.x;
        const uint32_t y = blockDim.y * blockIdx.y + threadIdx.y;
        const uint32_t z = blockDim.z * blockIdx.z + threadIdx.z;
        if ( x < w && y < h && z < d )
            atomicAdd( &c[( z * h + y ) * w + x], 1 );
    }

    void runTouch( uint32_t dim, uint32_t w, uint32_t h, uint32_t d, std::vector<uint32_t> & got )
    {
        const size_t n = size_t( w ) * ( dim > 1 ? h : 1 ) * ( dim > 2 ? d : 1 );
        std::vector<uint32_t> zero( n, 0u );
        multiCuda::Array<uint32_t> counts( zero );
        if ( dim == 1 ) {
            const multiCuda::KernelParameters p = multiCuda::getKernelParameters( w, 0u );
            SIMCUDA_LAUNCH( touch1, ( p.blocksPerGrid, p.threadsPerBlock, p.sharedMemorySize, p.stream ), counts.data(), w );
        }
        else if ( dim == 2 ) {
            const multiCuda::KernelParameters p = multiCuda::getKernelParameters( w, h, 0u );
            SIMCUDA_LAUNCH( touch2, ( p.blocksPerGrid, p.threadsPerBlock, p.sharedMemorySize, p.stream ), counts.data(), w, h );
        }
        else {
            const multiCuda::KernelParameters p = multiCuda::getKernelParameters( w, h, d, 0u );
            SIMCUDA_LAUNCH( touch3, ( p.blocksPerGrid, p.threadsPerBlock, p.sharedMemorySize, p.stream ), counts.data(), w, h, d );
        }
        multiCuda::validateKernel();
        got = counts.get();
    }

    void checkTouch( uint32_t dim, uint32_t w, uint32_t h, uint32_t d, const std::vector<uint32_t> & got )
    {
        const size_t n = size_t( w ) * ( dim > 1 ? h : 1 ) * ( dim > 2 ? d : 1 );
        if ( got.size() != n )
            sim_fail( "kernel-launch", "an array of %zu values has %zu values", n, got.size() );
        for ( size_t i = 0; i < n; ++i )
            if ( got[i] != 1 )
                sim_fail( "kernel-launch", "work item %zu of a %u-dimensional launch of %ux%ux%u was executed %u times", i, dim, w, h, d, got[i] );
        sim_count( "probe.custom-kernel", 1 );
    }

    void openAll()
    {
        mustWork( "opening the devices", [] { man().initializeDevices(); } );
    }

    void pickStream( uint32_t count )
    {
        mustWork( "changing streams", [&] {
            man().device().synchronize();
            const size_t current = man().device().currentStreamId();
            man().device().setStreamCount( count );
            if ( man().device().currentStreamId() != ( current < count ? current : 0 ) )
                sim_fail( "wrong-result", "stream %zu of %u is the current one instead of %zu", man().device().currentStreamId(), count, current );
            if ( count ) {
                man().device().setCurrentStreamId( sim_choose( count ) );
                if ( man().device().currentStreamId() >= count )
                    sim_fail( "wrong-result", "stream %zu of %u is the current one", man().device().currentStreamId(), count );
            }
            if ( man().device().streamCount() != count )
                sim_fail( "wrong-result", "%zu instead of %u streams", man().device().streamCount(), count );
        } );
        sim_count( "probe.streams", 1 );
    }

    // --- exact results
    void stepFunction()
    {
        Call x;
        x.gen( FN[sim_choose( FNS )], limits() );
        x.build();
        x.call();
        x.check( "" );
        if ( x.thrown )
            sim_count( "probe.unsupported", 1 );
        if ( sim_choose( 4 ) == 0 ) { // again with the same images
            for ( int i = 0; i < x.c.nin; ++i )
                upload( x.d.in[i].data(), x.c.in[i].d.data(), x.c.in[i].d.size() );
            for ( int i = 0; !x.c.inPlace && i < x.c.nout; ++i )
                if ( !( x.c.fn == ops::Copy && x.c.form == 1 ) )
                    upload( x.d.out[i].data(), x.c.out[i].d.data(), x.c.out[i].d.size() );
            x.d.vec = x.c.vec0;
            x.call();
            x.check( "second call: " );
        }
        x.release();
    }

    void samePixels( const Image & i, const ops::RImg & r, const char * what )
    {
        std::string why;
        if ( !ops::pixelsEqual( i, r, why ) )
            bad( "transfer", std::string( what ) + ": " + why );
    }

    void stepTransfer()
    {
        ops::RImg r;
        const uint32_t cc = ops::colours3();
        r.make( ops::side( 20 ), ops::side( 12 ), cc, ops::alignmentChoice() );
        ops::paint( r, sim_choose( 1u << 30 ), sim_choose( 6 ) );
        const uint32_t al2 = ops::alignmentChoice(), al3 = ops::alignmentChoice();
        Image h, dev, back;
        ops::Live::load( h, r );
        const bool auto1 = sim_choose( 3 ) == 0, auto2 = sim_choose( 3 ) == 0, pin1 = sim_choose( 3 ) == 0, pin2 = sim_choose( 3 ) == 0;
        ImageCudaPinned pinned, pinnedBack;
        if ( pin1 )
            mustWork( "an image in pinned memory", [&] {
                ImageCudaPinned p( r.w, r.h, uint8_t( r.cc ), uint8_t( r.al ) );
                if ( p.type() != 2 || p.rowSize() != h.rowSize() || p.empty() )
                    sim_fail( "image-geometry", "a new image in pinned memory has another geometry or type" );
                {
                    SimRt rt;
                    memcpy( p.data(), r.d.data(), r.d.size() );
                }
                pinned = p;
            } );
        mustWork( "ConvertToCuda", [&] {
            if ( auto1 )
                dev = Image_Function_Cuda::ConvertToCuda( pin1 ? pinned : h );
            else {
                dev = ImageCuda( r.w, r.h, uint8_t( cc ), uint8_t( al2 ) );
                Image_Function_Cuda::ConvertToCuda( pin1 ? pinned : h, dev );
            }
        } );
        if ( sim_choose( 2 ) ) {
            Image p;
            hostCopy( dev, p );
            samePixels( p, r, "a transfer to a device" );
        }
        mustWork( "ConvertFromCuda", [&] {
            if ( auto2 )
                back = Image_Function_Cuda::ConvertFromCuda( dev );
            else if ( pin2 ) {
                pinnedBack = ImageCudaPinned( r.w, r.h, uint8_t( cc ), uint8_t( al3 ) );
                Image_Function_Cuda::ConvertFromCuda( dev, pinnedBack );
            }
            else {
                back = Image( r.w, r.h, uint8_t( cc ), uint8_t( al3 ) );
                Image_Function_Cuda::ConvertFromCuda( dev, back );
            }
        } );
        const bool toPinned = !auto2 && pin2;
        if ( ( toPinned ? pinnedBack : back ).type() != ( toPinned ? 2 : 0 ) )
            sim_fail( "image-type", "an image converted to a host image has type %d", ( toPinned ? pinnedBack : back ).type() );
        samePixels( toPinned ? pinnedBack : back, r, "a transfer from a device" );
        if ( pin1 )
            samePixels( pinned, r, "the image in pinned memory which has been transferred" );
        std::string why;
        if ( !ops::bufferEquals( h, r, why ) )
            bad( "input-changed", "a transfer to a device changes its input: " + why );
        sim_count( "probe.transfer", 1 );
        SimSut sut;
        pinned = pinnedBack = ImageCudaPinned();
        dev = Image();
    }

    template <typename T>
    std::vector<T> peekAll( const penguinV::ImageTemplate<T> & i )
    {
        std::vector<T> v( size_t( i.rowSize() ) * i.height() );
        if ( v.empty() )
            return v;
        if ( i.type() == 1 )
            download( i.data(), v.data(), v.size() * sizeof( T ) );
        else {
            SimRt rt;
            memcpy( v.data(), i.data(), v.size() * sizeof( T ) );
        }
        return v;
    }

    template <typename T, template <typename> class ImgT>
    void imageOps( const uint8_t type )
    {
        typedef ImgT<T> Img;
        const uint32_t w = 1 + sim_choose( 12 ), h = 1 + sim_choose( 8 ), cc = ops::colours3(), al = ops::alignmentChoice();
        Img a;
        mustWork( "creating a device image", [&] { a = Img( w, h, uint8_t( cc ), uint8_t( al ) ); } );
        std::vector<T> va( size_t( a.rowSize() ) * a.height() ), vb;
        for ( size_t i = 0; i < va.size(); ++i )
            va[i] = T( i * 2654435761u >> 7 );
        if ( type == 1 ) {
            if ( cuda_mem_size( a.data() ) < va.size() * sizeof( T ) )
                sim_fail( "image-memory", "a device image of %zu bytes has %zu bytes of memory", va.size() * sizeof( T ), cuda_mem_size( a.data() ) );
            upload( a.data(), va.data(), va.size() * sizeof( T ) );
        }
        else {
            sim_write( a.data(), va.size() * sizeof( T ) );
            SimRt rt;
            memcpy( a.data(), va.data(), va.size() * sizeof( T ) );
        }
        std::unique_ptr<Img> b;
        const uint32_t steps = 1 + sim_choose( 4 );
        auto same = [&]( const Img & x, const std::vector<T> & v, const char * what ) {
            if ( x.type() != type )
                sim_fail( "image-type", "%s: an image of type %d", what, x.type() );
            if ( peekAll( x ) != v )
                sim_fail( "image-content", "%s: an image of %zu-byte values has another content", what, sizeof( T ) );
        };
        for ( uint32_t s = 0; s < steps; ++s ) {
            switch ( sim_choose( 6 ) ) {
            case 0:
                mustWork( "copy construction of a device image", [&] { b.reset( new Img( a ) ); } );
                vb = va;
                break;
            case 1:
                mustWork( "assignment of a device image", [&] {
                    if ( !b )
                        b.reset( new Img );
                    *b = a;
                } );
                vb = va;
                break;
            case 2:
                mustWork( "move construction of a device image", [&] {
                    Img t( std::move( a ) );
                    a = t;
                } );
                break;
            case 3: {
                const T v = T( sim_choose( 1u << 16 ) );
                mustWork( "fill of a device image", [&] { a.fill( v ); } );
                std::fill( va.begin(), va.end(), v );
                break;
            }
            case 4:
                if ( b ) {
                    mustWork( "swap of device images", [&] { a.swap( *b ); } );
                    std::swap( va, vb );
                }
                break;
            default:
                mustWork( "move assignment of a device image", [&] {
                    Img t( a );
                    Img u;
                    u = std::move( t );
                    t = u;
                    a = std::move( t );
                } );
            }
            same( a, va, "an image" );
            if ( b )
                same( *b, vb, "a copy" );
        }
        sim_count( "probe.device-images", 1 );
        SimSut sut;
        b.reset();
        a = Img();
    }

    struct Wide
    {
        uint32_t a, b, c;
        bool operator==( const Wide & o ) const
        {
            return a == o.a && b == o.b && c == o.c;
        }
    };
    template <typename T>
    T value()
    {
        return T( sim_choose( 1u << 20 ) );
    }
    template <>
    Wide value<Wide>()
    {
        return Wide{ sim_choose( 1000 ), sim_choose( 1000 ), sim_choose( 1000 ) };
    }

    template <typename T>
    void typeOps()
    {
        std::vector<T> v( sim_choose( 40 ) );
        for ( T & x : v )
            x = value<T>();
        const T one = value<T>(), two = value<T>();
        std::vector<T> r1, r2, r3, r4, r5;
        T g1{}, g2{}, g3{}, g4{};
        size_t s1 = 0, s2 = 0;
        bool e1 = false;
        const size_t n2 = sim_choose( 40 );
        mustWork( "multiCuda::Array and multiCuda::Type", [&] {
            multiCuda::Array<T> a( v );
            r1 = a.get();
            s1 = a.size();
            e1 = a.empty();
            multiCuda::Array<T> b( std::move( a ) );
            multiCuda::Array<T> c( n2 );
            c = std::move( b );
            r2 = c.get();
            c.resize( n2 );
            s2 = c.size();
            if ( n2 && cuda_mem_size( c.data() ) < n2 * sizeof( T ) )
                sim_fail( "array", "an array of %zu values has %zu bytes", n2, cuda_mem_size( c.data() ) );
            c = v;
            r3 = c.get();
            multiCuda::Array<T> d( c ), e( n2 ), f;
            e = d;
            f = e;
            r4 = d.get();
            r5 = f.get();
            multiCuda::Type<T> t( one );
            g1 = t.get();
            t = two;
            g2 = t.get();
            multiCuda::Type<T> u( t );
            multiCuda::Type<T> y( std::move( u ) );
            multiCuda::Type<T> w;
            w = std::move( y );
            g3 = w.get();
            multiCuda::Type<T> x( w );
            x = one;
            t = x;
            g4 = t.get();
        } );
        if ( !( r1 == v ) || !( r2 == v ) || !( r3 == v ) || !( r4 == v ) || !( r5 == v ) || s1 != v.size() || s2 != n2 || e1 != v.empty() )
            sim_fail( "array", "an array of %zu values does not keep its values", v.size() );
        if ( !( g1 == one ) || !( g2 == two ) || !( g3 == two ) || !( g4 == one ) )
            sim_fail( "type", "a single value in device memory is not kept" );
        sim_count( "probe.device-values", 1 );
    }

    void stepKernel()
    {
        const uint32_t dim = 1 + sim_choose( 3 );
        const uint32_t w = 1 + sim_choose( 40 ), h = 1 + sim_choose( dim == 3 ? 6 : 12 ), d = 1 + sim_choose( 5 );
        std::vector<uint32_t> got;
        mustWork( "a kernel of a user", [&] { runTouch( dim, w, h, d, got ); } );
        checkTouch( dim, w, h, d, got );
    }

    // blocks of memory of a device do not overlap and keep their content
    void stepMemory()
    {
        struct Piece
        {
            uint8_t * p;
            size_t n;
            uint8_t v;
        };
        std::vector<Piece> all;
        const uint32_t steps = 2 + sim_choose( 10 );
        for ( uint32_t s = 0; s < steps; ++s ) {
            if ( all.empty() || sim_choose( 3 ) ) {
                Piece x{ nullptr, 1 + sim_choose( sim_choose( 2 ) ? 20 : 3000 ), uint8_t( 1 + s ) };
                const bool wide = sim_choose( 2 ) != 0;
                mustWork( "allocation of device memory", [&] {
                    if ( wide )
                        x.p = reinterpret_cast<uint8_t *>( multiCuda::MemoryManager::memory().allocate<uint32_t>( x.n ) );
                    else
                        x.p = multiCuda::MemoryManager::memory( 0 ).allocate( x.n );
                } );
                if ( wide )
                    x.n *= 4;
                if ( cuda_mem_size( x.p ) < x.n )
                    sim_fail( "device-memory", "%zu bytes are allocated instead of %zu", cuda_mem_size( x.p ), x.n );
                std::vector<uint8_t> v( x.n, x.v );
                upload( x.p, v.data(), v.size() );
                all.push_back( x );
            }
            else {
                const uint32_t i = sim_choose( uint32_t( all.size() ) );
                const Piece x = all[i];
                std::vector<uint8_t> v( x.n );
                download( x.p, v.data(), v.size() );
                for ( size_t k = 0; k < v.size(); ++k )
                    if ( v[k] != x.v )
                        sim_fail( "memory-content", "allocated device memory is changed by another allocation" );
                mustWork( "freeing device memory", [&] { multiCuda::MemoryManager::memory().free( x.p ); } );
                all.erase( all.begin() + i );
            }
        }
        for ( const Piece & x : all ) {
            std::vector<uint8_t> v( x.n );
            download( x.p, v.data(), v.size() );
            for ( size_t k = 0; k < v.size(); ++k )
                if ( v[k] != x.v )
                    sim_fail( "memory-content", "allocated device memory is changed by another allocation" );
            mustWork( "freeing device memory", [&] { multiCuda::MemoryManager::memory().free( x.p ); } );
        }
        sim_count( "probe.device-memory", 1 );
    }

    void stepRotate()
    {
        ops::RImg r;
        r.make( ops::side( 20 ), ops::side( 12 ), 1, ops::alignmentChoice() );
        ops::paint( r, sim_choose( 1u << 30 ), sim_choose( 6 ) );
        ops::RImg o;
        o.make( r.w, r.h, 1, ops::alignmentChoice() );
        ops::paint( o, sim_choose( 1u << 30 ), 1 );
        const float cx = float( sim_choose( 40 ) ) / 2, cy = float( sim_choose( 24 ) ) / 2, dx = float( sim_choose( 40 ) ) / 2, dy = float( sim_choose( 24 ) ) / 2;
        const float angle = sim_choose( 3 ) ? float( int( sim_choose( 629 ) ) - 314 ) / 100 : float( int( sim_choose( 5 ) ) - 2 ) * 1.57079633f;
        Image in, out, h, hi;
        {
            SimSut sut;
            devImage( in, r );
            devImage( out, o );
        }
        mustWork( "CUDA Rotate", [&] { Image_Function_Cuda::Rotate( in, cx, cy, out, dx, dy, angle ); } );
        hostCopy( out, h );
        hostCopy( in, hi );
        std::string why;
        if ( !ops::bufferEquals( hi, r, why ) )
            bad( "input-changed", "CUDA Rotate: " + why );
        const double c = cos( double( angle ) ), s = sin( double( angle ) );
        const uint8_t * p = h.data();
        {
            SimRt rt;
            for ( uint32_t y = 0; y < r.h; ++y )
                for ( uint32_t x = 0; x < o.rs; ++x ) {
                    const int got = p[size_t( y ) * o.rs + x];
                    if ( x >= r.w ) {
                        if ( got != o.d[size_t( y ) * o.rs + x] )
                            sim_fail( "wrong-result", "CUDA Rotate writes outside of rows of an image" );
                        continue;
                    }
                    const double X = x - double( dx ), Y = y - double( dy );
                    const double ix = c * X + s * Y + double( cx ), iy = -s * X + c * Y + double( cy ), e = 1e-3;
                    if ( ix < -1 - e || iy < -1 - e || ix > r.w - 1 + e || iy > r.h - 1 + e ) {
                        if ( got != 0 )
                            sim_fail( "wrong-result", "CUDA Rotate by %g: pixel (%u,%u) outside of the image is %d", double( angle ), x, y, got );
                        continue;
                    }
                    if ( ix < e || iy < e || ix > r.w - 1 - e || iy > r.h - 1 - e )
                        continue; // a border
                    const uint32_t ux = uint32_t( ix ), uy = uint32_t( iy );
                    const double fx = ix - ux, fy = iy - uy;
                    const uint8_t * q = &r.d[size_t( uy ) * r.rs + ux];
                    const double v = q[0] * ( 1 - fx ) * ( 1 - fy ) + q[1] * fx * ( 1 - fy ) + q[r.rs] * ( 1 - fx ) * fy + q[r.rs + 1] * fx * fy;
                    if ( got < v - 0.75 || got > v + 0.75 )
                        sim_fail( "wrong-result", "CUDA Rotate by %g: pixel (%u,%u) of %ux%u is %d instead of %g", double( angle ), x, y, r.w, r.h, got, v );
                }
        }
        sim_count( "probe.rotate", 1 );
        SimSut sut;
        in = Image();
        out = Image();
    }

    struct Blur
    {
        ops::RImg r;
        uint32_t kernel = 1;
        float sigma = 1;
        std::vector<double> want;

        void gen()
        {
            kernel = 1 + sim_choose( 2 );
            const uint32_t least = 2 * kernel + 1;
            r.make( least + sim_choose( 8 ), least + sim_choose( 6 ), 1, ops::alignmentChoice() );
            ops::paint( r, sim_choose( 1u << 30 ), sim_choose( 6 ) );
            sigma = float( 1 + sim_choose( 40 ) ) / 8;
            SimRt rt;
            want.assign( size_t( r.w ) * r.h, 0.0 );
            const int k = int( kernel );
            std::vector<double> g;
            double sum = 0;
            for ( int y = -k; y <= k; ++y )
                for ( int x = -k; x <= k; ++x ) {
                    g.push_back( exp( -( x * x + y * y ) / ( 2.0 * double( sigma ) ) ) );
                    sum += g.back();
                }
            for ( int y = 0; y < int( r.h ); ++y )
                for ( int x = 0; x < int( r.w ); ++x ) {
                    double v = 0;
                    size_t i = 0;
                    for ( int dy = -k; dy <= k; ++dy )
                        for ( int dx = -k; dx <= k; ++dx, ++i )
                            v += g[i] / sum * r.d[size_t( ( y - dy + int( r.h ) ) % int( r.h ) ) * r.rs + size_t( ( x - dx + int( r.w ) ) % int( r.w ) )];
                    want[size_t( y ) * r.w + size_t( x )] = v;
                }
        }
        void check( const Image & h, const char * what ) const
        {
            if ( h.width() != r.w || h.height() != r.h || h.colorCount() != 1 )
                sim_fail( "wrong-result", "%s: an image of %ux%ux%u instead of %ux%u", what, h.width(), h.height(), h.colorCount(), r.w, r.h );
            SimRt rt;
            for ( uint32_t y = 0; y < r.h; ++y )
                for ( uint32_t x = 0; x < r.w; ++x ) {
                    const int got = h.data()[size_t( y ) * h.rowSize() + x];
                    const double v = want[size_t( y ) * r.w + x];
                    if ( got < v - 0.6 || got > v + 0.6 )
                        sim_fail( "wrong-result", "%s of %ux%u aligned to %u, kernel size %u: pixel (%u,%u) is %d instead of %g", what, r.w, r.h, r.al, kernel, x, y, got, v );
                }
            sim_count( "probe.checked-blur", 1 );
        }
    };

    void stepGaussian()
    {
        Blur b;
        b.gen();
        const uint32_t how = sim_choose( 3 );
        Image in, out, h;
        {
            SimSut sut;
            devImage( in, b.r );
            if ( how == 1 )
                out = ImageCuda( b.r.w, b.r.h, 1, uint8_t( ops::alignmentChoice() ) );
        }
        mustWork( "CUDA Gaussian filter", [&] {
            if ( how == 0 )
                out = Image_Function_Cuda::Gaussian( in, b.kernel, b.sigma );
            else if ( how == 1 )
                Image_Function_Cuda::Gaussian( in, out, b.kernel, b.sigma );
            else {
                // step by step
                FFT_Cuda::ComplexData a( in ), g = Image_Function_Cuda::GetGaussianKernel( b.r.w, b.r.h, b.kernel, b.sigma ), c;
                FFT_Cuda::FFTExecutor executor( b.r.w, b.r.h );
                FFT_Cuda::ComplexData fa( a ), fg( a );
                executor.directTransform( a, fa );
                executor.directTransform( g, fg );
                c.resize( b.r.w, b.r.h );
                if ( sim_choose( 2 ) )
                    executor.complexMultiplication( fa, fg, c );
                else {
                    FFT::BaseComplexData<cufftComplex> & target = c;
                    target = fg;
                    executor.complexMultiplication( fa, c, c );
                }
                executor.inverseTransform( c );
                out = c.get();
            }
        } );
        hostCopy( out, h );
        b.check( h, "CUDA Gaussian filter" );
        Image hi;
        hostCopy( in, hi );
        std::string why;
        if ( !ops::bufferEquals( hi, b.r, why ) )
            bad( "input-changed", "CUDA Gaussian filter: " + why );
        SimSut sut;
        in = Image();
        out = Image();
    }

    void stepSettings()
    {
        if ( sim_choose( 2 ) ) {
            uint32_t now = 0;
            const uint32_t n = 32 * ( 1 + sim_choose( 32 ) );
            mustWork( "setThreadsPerBlock", [&] {
                const uint32_t before = man().device().threadsPerBlock(), most = man().device().maximumThreadsPerBlock();
                man().device().setThreadsPerBlock( n );
                now = man().device().threadsPerBlock();
                if ( now != ( n <= most ? n : before ) )
                    sim_fail( "wrong-result", "%u threads in a block after a change of %u to %u, up to %u are supported", now, before, n, most );
            } );
            const uint32_t wrong = 32 * sim_choose( 3 ) + ( sim_choose( 2 ) ? 5 : 0 );
            if ( wrong % 32 || wrong == 0 ) {
                const Outcome o = attempt( [&] { man().device().setThreadsPerBlock( wrong ); } );
                if ( !o.thrown )
                    sim_fail( "silent-failure", "%u threads in a block are accepted", wrong );
            }
            return;
        }
        // callbacks and the state of a stream
        pickStream( 1 + sim_choose( 3 ) );
        static std::atomic<int> calls;
        calls = 0;
        std::vector<uint32_t> got;
        mustWork( "a callback", [&] {
            runTouch( 1, 10, 1, 1, got );
            man().device().stream().setCallback( []( cudaStream_t, cudaError_t, void * p ) { ++*static_cast<std::atomic<int> *>( p ); }, &calls );
            bool free = false;
            if ( sim_choose( 2 ) )
                man().device().stream().synchronize();
            else
                for ( int i = 0; i < 100 && !( free = man().device().stream().isFree() ); ++i )
                    ;
            if ( ( free && calls != 1 ) || calls > 1 )
                sim_fail( "stream", "a callback was called %d times", int( calls ) );
            man().device().synchronize();
            if ( calls != 1 || !man().device().stream().isFree() )
                sim_fail( "stream", "a callback was called %d times before the end of a synchronisation", int( calls ) );
        } );
        checkTouch( 1, 10, 1, 1, got );
    }

    void reservePool( int device )
    {
        const size_t n = sim_choose( 2 ) ? ( size_t( 1 ) << ( 8 + sim_choose( 9 ) ) ) : 1 + sim_choose( 60000 );
        mustWork( "reserving device memory", [&] { multiCuda::MemoryManager::memory( device ).reserve( n ); } );
        sim_count( "probe.reserved", 1 );
    }

    void step()
    {
        switch ( sim_choose( 16 ) ) {
        case 8:
            stepTransfer();
            break;
        case 9:
            switch ( sim_choose( 5 ) ) {
            case 0:
                imageOps<uint16_t, penguinV::ImageTemplateCuda>( 1 );
                break;
            case 1:
                imageOps<uint8_t, penguinV::ImageTemplateCudaPinned>( 2 );
                break;
            case 2:
                imageOps<uint16_t, penguinV::ImageTemplateCudaPinned>( 2 );
                break;
            default:
                imageOps<uint8_t, penguinV::ImageTemplateCuda>( 1 );
            }
            break;
        case 10:
            switch ( sim_choose( 4 ) ) {
            case 0:
                typeOps<uint8_t>();
                break;
            case 1:
                typeOps<uint32_t>();
                break;
            case 2:
                typeOps<double>();
                break;
            default:
                typeOps<Wide>();
            }
            break;
        case 11:
            if ( sim_choose( 2 ) )
                stepMemory();
            else
                stepKernel();
            break;
        case 12:
            stepGaussian();
            break;
        case 13:
            stepRotate();
            break;
        case 14:
            stepSettings();
            break;
        default:
            stepFunction();
        }
    }

    void exact()
    {
        cuda_begin( config( 1 ) );
        atexit( cuda_check_released );
        g_userCopies = sim_choose( 2 ) != 0;
        openAll();
        if ( sim_choose( 2 ) )
            reservePool( 0 );
        if ( sim_choose( 2 ) )
            pickStream( 1 + sim_choose( 3 ) );
        const uint32_t n = 1 + sim_choose( 3 );
        for ( uint32_t i = 0; i < n; ++i ) {
            step();
            if ( sim_choose( 8 ) == 0 )
                pickStream( sim_choose( 4 ) );
        }
        sim_exit_normally();
    }


    // --- failures
    uint64_t g_clBefore, g_memBefore;

    void arm( bool memory, bool async )
    {
        g_clBefore = cuda_failed();
        g_memBefore = sim_alloc_failed();
        switch ( sim_choose( memory ? 8 : 6 ) ) {
        case 0:
        case 1:
            cuda_fail_at( 1 + sim_choose( 12 ) );
            break;
        case 2:
            cuda_fail_at( 1 + sim_choose( 40 ) );
            break;
        case 3:
            cuda_lost_at( 1 + sim_choose( 30 ) );
            break;
        case 4:
            cuda_faults( 2 + sim_choose( 12 ) );
            break;
        case 5:
            if ( async )
                cuda_async_faults( 1 + sim_choose( 2 ) );
            else {
                static const char * const part[] = { "Malloc", "Memcpy", "kernel", "Set", "Get", "Stream", "cufft", "Free", "Memset" };
                cuda_fail_name( part[sim_choose( 9 )], 1 + sim_choose( 3 ) );
            }
            break;
        case 6:
            sim_alloc_fail_at( 1 + sim_choose( sim_choose( 2 ) ? 40 : 8 ) );
            break;
        default:
            sim_alloc_faults( 2 + sim_choose( 12 ) );
        }
    }

    bool disarm() // has anything failed?
    {
        cuda_faults_off();
        sim_alloc_fail_at( 0 );
        sim_alloc_faults( 0 );
        const bool failed = cuda_failed() != g_clBefore || sim_alloc_failed() != g_memBefore;
        g_clBefore = cuda_failed();
        g_memBefore = sim_alloc_failed();
        return failed;
    }

    void judge( const Outcome & o, bool failed, const char * what )
    {
        if ( o.thrown && !failed )
            bad( "unexpected-exception", std::string( what ) + " fails: " + o.what );
        if ( o.thrown )
            sim_count( "probe.failed-call", 1 );
        else if ( failed )
            sim_count( "probe.survived-fault", 1 );
    }

    void failFunction()
    {
        Call x;
        x.gen( FN[sim_choose( FNS )], limits() );
        const bool used = sim_choose( 2 ) == 0, pool = sim_choose( 2 ) == 0;
        if ( pool )
            reservePool( 0 );
        if ( used ) {
            Call y;
            y.c = x.c;
            y.build();
            y.call();
            y.check( "" );
            y.release();
        }
        const uint64_t serial = sim_alloc_serial();
        const uint32_t tries = 1 + sim_choose( 3 );
        for ( uint32_t t = 0; t < tries; ++t ) {
            x.build();
            arm( true, true );
            x.call( true );
            const bool failed = disarm();
            if ( x.thrown && failed ) {
                x.checkFailed( "failed call of " );
                sim_count( "probe.failed-call", 1 );
                if ( sim_choose( 2 ) ) { // again with the same images
                    for ( int i = 0; i < x.c.nin; ++i )
                        upload( x.d.in[i].data(), x.c.in[i].d.data(), x.c.in[i].d.size() );
                    if ( !( x.c.fn == ops::Copy && x.c.form == 1 ) ) {
                        for ( int i = 0; !x.c.inPlace && i < x.c.nout; ++i )
                            upload( x.d.out[i].data(), x.c.out[i].d.data(), x.c.out[i].d.size() );
                        x.d.vec = x.c.vec0;
                        x.call();
                        x.check( "after a failed call: " );
                    }
                }
            }
            else
                x.check( failed ? "a CUDA call failed but the function reported success: " : "" );
            x.release();
        }
        x.build();
        x.call();
        x.check( "after a failed call: " );
        x.release();
        if ( used && !pool ) {
            SimRt rt;
            char b[400];
            if ( sim_live_blocks( serial, b, sizeof b ) != 0 )
                sim_fail( "leak", "failed calls of %s leak:%s", x.text().c_str(), b );
        }
    }

    // the library and CUDA use the same device
    void sameDevice( int device )
    {
        uint8_t * p = nullptr;
        mustWork( "allocation of device memory", [&] { p = multiCuda::MemoryManager::memory().allocate( 10 ); } );
        if ( cuda_mem_device( p ) != device || cuda_current( -1 ) != device || man().device().deviceId() != device )
            sim_fail( "wrong-device", "device %d is active, memory is allocated on device %d and kernels are executed on device %d instead of device %d",
                      man().device().deviceId(), cuda_mem_device( p ), cuda_current( -1 ), device );
        mustWork( "freeing device memory", [&] { multiCuda::MemoryManager::memory().free( p ); } );
    }

    void failOpen()
    {
        if ( sim_choose( 8 ) == 0 )
            arm( true, false );
        const Outcome first = attempt( [] { man(); } );
        judge( first, disarm(), "the search for devices" );
        if ( first.thrown )
            mustWork( "the search for devices", [] { man(); } );
        const int n = man().supportedDeviceCount();
        if ( n == 0 ) { // no device has been found because of a failure
            sim_count( "probe.no-devices", 1 );
            const Outcome o = attempt( [] {
                man().initializeDevices();
                man().device();
            } );
            if ( !o.thrown )
                sim_fail( "silent-failure", "there is a device although none was found" );
            return;
        }
        const uint32_t tries = 1 + sim_choose( 3 );
        for ( uint32_t t = 0; t < tries; ++t ) {
            const bool pool = sim_choose( 2 ) == 0;
            const uint32_t streams = sim_choose( 4 );
            arm( true, false );
            const Outcome o = attempt( [&] {
                man().initializeDevices();
                if ( pool )
                    man().device( n - 1 ).allocator().reserve( 4096 );
                if ( streams )
                    man().device( n - 1 ).setStreamCount( streams );
            } );
            const bool failed = disarm();
            judge( o, failed, "opening the devices" );
            if ( !o.thrown ) {
                if ( man().deviceCount() != n )
                    sim_fail( "wrong-result", "%d of %d devices have been opened", man().deviceCount(), n );
                if ( streams && man().device( n - 1 ).streamCount() != streams )
                    sim_fail( "wrong-result", "%zu instead of %u streams", man().device( n - 1 ).streamCount(), streams );
            }
            if ( man().deviceCount() > n )
                sim_fail( "wrong-result", "%d devices of %d have been opened", man().deviceCount(), n );
            if ( sim_choose( 2 ) ) {
                if ( sim_choose( 2 ) ) {
                    arm( false, false );
                    const Outcome c = attempt( [] { man().closeDevices(); } );
                    judge( c, disarm(), "closing the devices" );
                }
                mustWork( "closing the devices", [] { man().closeDevices(); } );
                if ( man().deviceCount() != 0 )
                    sim_fail( "wrong-result", "%d devices are open after all were closed", man().deviceCount() );
            }
        }
        openAll();
        if ( man().deviceCount() != n )
            sim_fail( "wrong-result", "%d of %d devices have been opened", man().deviceCount(), n );
        stepFunction();
        if ( sim_choose( 2 ) ) {
            arm( false, false );
            const Outcome o = attempt( [&] { man().setActiveDevice( n - 1 ); } );
            judge( o, disarm(), "setActiveDevice" );
            sameDevice( o.thrown ? 0 : n - 1 );
        }
        mustWork( "setActiveDevice", [&] { man().setActiveDevice( n - 1 ); } );
        sameDevice( n - 1 );
        stepFunction();
    }

    void failTransfer()
    {
        ops::RImg r;
        const uint32_t cc = ops::colours3();
        r.make( ops::side( 20 ), ops::side( 12 ), cc, ops::alignmentChoice() );
        ops::paint( r, sim_choose( 1u << 30 ), sim_choose( 6 ) );
        const uint32_t tries = 1 + sim_choose( 3 );
        const uint8_t al = uint8_t( ops::alignmentChoice() );
        Image h;
        ops::Live::load( h, r );
        std::string why;
        for ( uint32_t t = 0; t <= tries; ++t ) {
            const bool down = sim_choose( 2 ), newImage = sim_choose( 2 );
            Image dev, back;
            {
                SimSut sut;
                if ( down )
                    devImage( dev, r );
                else if ( !newImage )
                    dev = ImageCuda( r.w, r.h, uint8_t( cc ), al );
                if ( down && !newImage )
                    back = Image( r.w, r.h, uint8_t( cc ), al );
            }
            if ( t < tries )
                arm( true, false );
            const Outcome o = attempt( [&] {
                if ( down ) {
                    if ( newImage )
                        back = Image_Function_Cuda::ConvertFromCuda( dev );
                    else
                        Image_Function_Cuda::ConvertFromCuda( dev, back );
                }
                else {
                    if ( newImage )
                        dev = Image_Function_Cuda::ConvertToCuda( h );
                    else
                        Image_Function_Cuda::ConvertToCuda( h, dev );
                }
            } );
            judge( o, disarm(), "a transfer" );
            if ( !o.thrown ) {
                if ( !down )
                    hostCopy( dev, back );
                samePixels( back, r, down ? "a transfer from a device" : "a transfer to a device" );
            }
            if ( !ops::bufferEquals( h, r, why ) )
                bad( "input-changed", "a transfer to a device changes its input: " + why );
            if ( down ) {
                hostCopy( dev, back );
                if ( !ops::bufferEquals( back, r, why ) )
                    bad( "input-changed", "a transfer from a device changes its input: " + why );
            }
            SimSut sut;
            dev = Image();
            back = Image();
        }
    }

    void failImages()
    {
        ops::RImg r, q;
        const uint32_t cc = ops::colours3();
        r.make( ops::side( 12 ), ops::side( 12 ), cc, ops::alignmentChoice() );
        ops::paint( r, sim_choose( 1u << 30 ), 1 );
        q.make( ops::side( 12 ), ops::side( 12 ), 1, 1 );
        ops::paint( q, sim_choose( 1u << 30 ), 1 );
        const uint32_t tries = 1 + sim_choose( 3 );
        Image a, b;
        {
            SimSut sut;
            devImage( a, r );
        }
        std::string why;
        for ( uint32_t t = 0; t <= tries; ++t ) {
            const uint32_t what = sim_choose( 5 );
            const uint8_t v = uint8_t( sim_choose( 256 ) );
            {
                SimSut sut;
                if ( what == 1 || what == 2 )
                    devImage( b, q );
            }
            if ( t < tries )
                arm( true, false );
            ops::RImg e = r;
            const Outcome o = attempt( [&] {
                switch ( what ) {
                case 0:
                    b = ImageCuda( r.w, r.h, uint8_t( cc ), uint8_t( r.al ) );
                    break;
                case 1:
                    b = a;
                    break;
                case 2:
                    b.resize( r.w + 1, r.h );
                    break;
                case 3: {
                    Image c( a );
                    b.swap( c );
                    break;
                }
                default:
                    b = a.generate( r.w, r.h, uint8_t( cc ), uint8_t( r.al ) );
                    b.fill( v );
                    std::fill( e.d.begin(), e.d.end(), v );
                }
            } );
            judge( o, disarm(), "an operation with a device image" );
            Image h;
            if ( !o.thrown && ( what == 1 || what >= 3 ) ) {
                hostCopy( b, h );
                if ( !ops::bufferEquals( h, e, why ) )
                    bad( "image-content", "an image: " + why );
            }
            if ( !o.thrown && what == 2 && ( b.width() != r.w + 1 || b.height() != r.h ) && !( q.w == r.w + 1 && q.h == r.h ) )
                sim_fail( "image-geometry", "a resized image has another size" );
            if ( o.thrown && b.type() == ImageCuda().type() )
                hostCopy( b, h ); // consistent
            hostCopy( a, h );
            if ( !ops::bufferEquals( h, r, why ) )
                bad( "image-content", "an image which was not involved in a failed operation: " + why );
            SimSut sut;
            if ( sim_choose( 2 ) )
                b = Image();
        }
        SimSut sut;
        a = Image();
        b = Image();
    }

    template <typename T>
    void failValues()
    {
        std::vector<T> v( 1 + sim_choose( 30 ) ), u( 1 + sim_choose( 30 ) ), r;
        for ( T & x : v )
            x = value<T>();
        for ( T & x : u )
            x = value<T>();
        const T one = value<T>();
        const uint32_t tries = 1 + sim_choose( 3 );
        std::unique_ptr<multiCuda::Array<T>> kept;
        for ( uint32_t t = 0; t <= tries; ++t ) {
            const uint32_t what = sim_choose( 4 );
            T g{};
            size_t s = 0;
            r.clear();
            if ( t < tries )
                arm( true, false );
            Outcome o = attempt( [&] {
                switch ( what ) {
                case 0:
                    kept.reset( new multiCuda::Array<T>( v ) );
                    r = kept->get();
                    break;
                case 1:
                    if ( !kept )
                        kept.reset( new multiCuda::Array<T>( u ) );
                    *kept = v;
                    r = kept->get();
                    break;
                case 2: {
                    multiCuda::Type<T> x( one );
                    g = x.get();
                    break;
                }
                default:
                    if ( !kept )
                        kept.reset( new multiCuda::Array<T> );
                    kept->resize( u.size() );
                    s = kept->size();
                    *kept = v;
                    r = kept->get();
                }
            } );
            judge( o, disarm(), "multiCuda::Array or multiCuda::Type" );
            if ( !o.thrown && ( what == 2 ? !( g == one ) : !( r == v ) ) )
                sim_fail( "array", "values in device memory are not kept" );
            if ( !o.thrown && what == 3 && s != u.size() )
                sim_fail( "array", "an array has %zu values instead of %zu", s, u.size() );
            if ( kept && kept->empty() != ( kept->size() == 0 ) )
                sim_fail( "array", "an array of %zu values %s empty", kept->size(), kept->empty() ? "is" : "is not" );
            if ( kept && kept->size() && cuda_mem_size( kept->data() ) < kept->size() * sizeof( T ) )
                sim_fail( "array", "an array of %zu values has %zu bytes", kept->size(), cuda_mem_size( kept->data() ) );
        }
        mustWork( "multiCuda::Array after a failure", [&] {
            if ( !kept )
                kept.reset( new multiCuda::Array<T> );
            kept->resize( u.size() );
            *kept = u;
            r = kept->get();
        } );
        if ( !( r == u ) )
            sim_fail( "array", "values in device memory are not kept after a failure" );
        SimSut sut;
        kept.reset();
    }

    void failGaussian()
    {
        Blur b;
        b.gen();
        const uint32_t tries = 1 + sim_choose( 3 );
        std::string why;
        for ( uint32_t t = 0; t <= tries; ++t ) {
            Image in, out, h, hi;
            {
                SimSut sut;
                devImage( in, b.r );
            }
            if ( t < tries )
                arm( true, true );
            const Outcome o = attempt( [&] {
                out = Image_Function_Cuda::Gaussian( in, b.kernel, b.sigma );
                man().device().synchronize();
            } );
            judge( o, disarm(), "CUDA Gaussian filter" );
            if ( !o.thrown ) {
                hostCopy( out, h );
                b.check( h, t < tries ? "CUDA Gaussian filter with a failure" : "CUDA Gaussian filter after failures" );
            }
            hostCopy( in, hi );
            if ( !ops::bufferEquals( hi, b.r, why ) )
                bad( "input-changed", "CUDA Gaussian filter: " + why );
            SimSut sut;
            in = Image();
        out = Image();
        }
    }

    // an executor and its data are used again after failures
    void failTransform()
    {
        Blur b;
        b.gen();
        Image in;
        {
            SimSut sut;
            devImage( in, b.r );
        }
        std::unique_ptr<FFT_Cuda::FFTExecutor> executor;
        std::unique_ptr<FFT_Cuda::ComplexData> a, g;
        const uint32_t tries = 1 + sim_choose( 3 );
        for ( uint32_t t = 0; t <= tries; ++t ) {
            Image out, h;
            if ( t < tries )
                arm( true, false );
            const Outcome o = attempt( [&] {
                if ( !executor )
                    executor.reset( new FFT_Cuda::FFTExecutor( b.r.w, b.r.h ) );
                else if ( executor->width() == 0 || sim_choose( 2 ) )
                    executor->initialize( b.r.w, b.r.h );
                if ( !a )
                    a.reset( new FFT_Cuda::ComplexData );
                if ( !g )
                    g.reset( new FFT_Cuda::ComplexData );
                a->set( in );
                g.reset( new FFT_Cuda::ComplexData( Image_Function_Cuda::GetGaussianKernel( b.r.w, b.r.h, b.kernel, b.sigma ) ) );
                if ( sim_choose( 2 ) ) {
                    std::unique_ptr<FFT_Cuda::ComplexData> & x = sim_choose( 2 ) ? a : g;
                    std::unique_ptr<FFT_Cuda::ComplexData> copy( new FFT_Cuda::ComplexData( *x ) );
                    x = std::move( copy );
                }
                executor->directTransform( *a );
                executor->directTransform( *g );
                executor->complexMultiplication( *a, *g, *a );
                executor->inverseTransform( *a );
                out = a->get();
                man().device().synchronize();
            } );
            judge( o, disarm(), "CUDA Fourier transform" );
            if ( !o.thrown ) {
                hostCopy( out, h );
                b.check( h, t < tries ? "CUDA Fourier transform with a failure" : "CUDA Fourier transform after failures" );
            }
            if ( a && !a->empty() && cuda_mem_size( a->data() ) < size_t( a->width() ) * a->height() * sizeof( cufftComplex ) )
                sim_fail( "device-memory", "data of %ux%u complex values has %zu bytes", a->width(), a->height(), cuda_mem_size( a->data() ) );
            SimSut sut;
            out = Image();
            if ( sim_choose( 3 ) == 0 )
                executor.reset();
            if ( sim_choose( 3 ) == 0 )
                a.reset();
        }
        SimSut sut;
        executor.reset();
        a.reset();
        g.reset();
        in = Image();
    }

    void failKernel()
    {
        const uint32_t tries = 1 + sim_choose( 3 );
        const uint32_t dim = 1 + sim_choose( 3 );
        const uint32_t w = 1 + sim_choose( 12 ), h = 1 + sim_choose( 6 ), d = 1 + sim_choose( 3 );
        for ( uint32_t t = 0; t <= tries; ++t ) {
            std::vector<uint32_t> got;
            if ( t < tries )
                arm( true, true );
            const Outcome o = attempt( [&] { runTouch( dim, w, h, d, got ); } );
            judge( o, disarm(), "a kernel of a user" );
            if ( !o.thrown )
                checkTouch( dim, w, h, d, got );
        }
    }

    void failDevice()
    {
        // streams and reservation of memory
        const uint32_t tries = 1 + sim_choose( 4 );
        for ( uint32_t t = 0; t <= tries; ++t ) {
            const uint32_t what = sim_choose( 4 );
            const size_t had = man().device().streamCount();
            const uint32_t q = sim_choose( 5 );
            const size_t n = 1 + sim_choose( 30000 );
            const bool faults = t < tries;
            if ( faults )
                arm( what == 1 || what == 3, false );
            const Outcome o = attempt( [&] {
                switch ( what ) {
                case 0:
                    man().device().synchronize();
                    break;
                case 1:
                    man().device().setStreamCount( q );
                    break;
                case 2:
                    if ( had ) {
                        man().device().stream().synchronize();
                        man().device().stream().isFree();
                    }
                    break;
                default:
                    multiCuda::MemoryManager::memory().reserve( n );
                }
            } );
            const bool failed = disarm();
            judge( o, failed, "an operation with a device" );
            if ( what == 0 && failed && !o.thrown )
                sim_fail( "silent-failure", "a failed synchronisation is reported as a success" );
            const size_t has = man().device().streamCount();
            if ( what == 1 && ( o.thrown ? has != q && ( has < had || has > q ) : has != q ) )
                sim_fail( "wrong-result", "%zu streams after a change of %zu to %u", has, had, q );
            if ( man().device().currentStreamId() >= ( has ? has : 1 ) )
                sim_fail( "wrong-result", "stream %zu of %zu is the current one", man().device().currentStreamId(), has );
            if ( what == 3 && sim_choose( 2 ) )
                stepFunction();
        }
        stepFunction();
    }

    // memory reserved on a device is neither lost nor given out twice whatever has failed
    void failMemory()
    {
        struct Piece
        {
            uint8_t * p;
            size_t n;
            uint8_t v;
        };
        const size_t size = size_t( 1024 ) << sim_choose( 6 );
        mustWork( "reserving device memory", [&] { multiCuda::MemoryManager::memory().reserve( size ); } );
        const uint64_t used = cuda_used( 0 );
        std::vector<Piece> all;
        all.reserve( 64 );
        const uint32_t steps = 3 + sim_choose( 20 );
        arm( true, false );
        auto check = [&]( const Piece & x ) {
            uint8_t v[4096];
            const size_t n = x.n < sizeof v ? x.n : sizeof v;
            cuda_finish();
            cuda_peek( x.p, v, n );
            for ( size_t k = 0; k < n; ++k )
                if ( v[k] != x.v )
                    sim_fail( "memory-content", "allocated device memory is changed by another allocation" );
        };
        for ( uint32_t s = 0; s < steps; ++s ) {
            if ( all.empty() || sim_choose( 5 ) > 1 ) {
                Piece x{ nullptr, 1 + sim_choose( sim_choose( 2 ) ? uint32_t( size / 16 ) : uint32_t( size * 3 / 4 ) ), uint8_t( 1 + s ) };
                const Outcome o = attempt( [&] { x.p = multiCuda::MemoryManager::memory().allocate( x.n ); } );
                if ( o.thrown ) {
                    if ( cuda_failed() == g_clBefore && sim_alloc_failed() == g_memBefore )
                        bad( "unexpected-exception", "allocation of device memory fails: " + o.what );
                    sim_count( "probe.failed-call", 1 );
                    continue;
                }
                if ( cuda_mem_size( x.p ) < x.n )
                    sim_fail( "device-memory", "%zu bytes are allocated instead of %zu", cuda_mem_size( x.p ), x.n );
                SimRt rt;
                const std::vector<uint8_t> v( x.n, x.v );
                cuda_poke( x.p, v.data(), v.size() );
                all.push_back( x );
            }
            else {
                const uint32_t i = sim_choose( uint32_t( all.size() ) );
                const Piece x = all[i];
                check( x );
                const uint64_t before = cuda_failed();
                const Outcome o = attempt( [&] { multiCuda::MemoryManager::memory().free( x.p ); } );
                if ( o.thrown && cuda_failed() == before )
                    bad( "unexpected-exception", "release of device memory fails: " + o.what );
                all.erase( all.begin() + i );
            }
        }
        disarm();
        for ( const Piece & x : all ) {
            check( x );
            mustWork( "freeing device memory", [&] { multiCuda::MemoryManager::memory().free( x.p ); } );
        }
        if ( cuda_is_lost() )
            return;
        const uint64_t rest = cuda_used( 0 );
        if ( cuda_failed() == 0 && rest != used )
            sim_fail( "device-memory", "%llu bytes of a device are not released", (unsigned long long)( rest - used ) );
        // everything is free so both halves of the reserved memory can be given out again
        uint8_t * half[2] = { nullptr, nullptr };
        for ( uint8_t *& h : half )
            mustWork( "allocation of device memory", [&] { h = multiCuda::MemoryManager::memory().allocate( size / 2 ); } );
        if ( cuda_used( 0 ) != rest )
            sim_fail( "device-memory", "%zu reserved bytes are all free but two blocks of %zu bytes do not fit into them", size, size / 2 );
        for ( uint8_t * h : half )
            mustWork( "freeing device memory", [&] { multiCuda::MemoryManager::memory().free( h ); } );
        sim_count( "probe.reserved-memory", 1 );
    }

    void failures()
    {
        const uint32_t mode = sim_choose( 14 );
        cuda_begin( config( mode <= 1 ? 3 : 1 ) );
        atexit( cuda_check_released );
        if ( mode <= 1 )
            failOpen();
        else {
            openAll();
            if ( sim_choose( 3 ) == 0 )
                pickStream( 1 + sim_choose( 2 ) );
            switch ( mode ) {
            case 2:
                failTransfer();
                break;
            case 3:
                failImages();
                break;
            case 4:
                if ( sim_choose( 2 ) )
                    failValues<uint32_t>();
                else
                    failValues<Wide>();
                break;
            case 5:
                failKernel();
                break;
            case 6:
                failDevice();
                break;
            case 7:
                failGaussian();
                break;
            case 13:
                failMemory();
                break;
            case 8:
                failTransform();
                break;
            default:
                failFunction();
            }
        }
        sim_exit_normally();
    }


    // --- several devices
    struct Kept
    {
        Image img;
        ops::RImg r;
        int device = 0;
        bool pooled = false; // the memory belongs to its device while it is open
    };

    struct World
    {
        int n = 0;
        bool open[4] = {};
        bool pool[4] = {};
        int active = 0;
        std::vector<std::unique_ptr<Kept>> kept;

        int count() const
        {
            int c = 0;
            for ( int i = 0; i < n; ++i )
                c += open[i];
            return c;
        }
        bool usable() const
        {
            return open[active];
        }
        void leave( int device ) // a user releases what is in reserved memory of a device before closing it
        {
            SimSut sut;
            for ( size_t i = kept.size(); i-- > 0; )
                if ( kept[i]->device == device && kept[i]->pooled )
                    kept.erase( kept.begin() + long( i ) );
        }
        void opened( int d )
        {
            if ( !open[d] ) {
                open[d] = true;
                pool[d] = false;
            }
        }
    };

    void expect( const Outcome & o, bool works, const char * what, int device )
    {
        if ( o.thrown && works )
            bad( "unexpected-exception", std::string( what ) + " of device " + std::to_string( device ) + " fails: " + o.what );
        if ( !o.thrown && !works )
            bad( "silent-failure", std::string( what ) + " of device " + std::to_string( device ) + " which cannot be used succeeds" );
    }

    void onDevice( const Image & i, int device, const char * what )
    {
        if ( !i.empty() && cuda_mem_device( i.data() ) != device )
            sim_fail( "wrong-device", "%s is on device %d instead of %d", what, cuda_mem_device( i.data() ), device );
    }

    void checkKept( Kept & k, const char * what )
    {
        Image h;
        std::string why;
        hostCopy( k.img, h );
        if ( !ops::bufferEquals( h, k.r, why ) )
            bad( "image-content", std::string( what ) + ": " + why );
        onDevice( k.img, k.device, what );
    }

    void callOnActive( World & w, const char * what )
    {
        Call x;
        x.gen( FN[sim_choose( FNS )], limits() );
        x.build();
        for ( int i = 0; i < x.c.nin; ++i )
            onDevice( x.d.in[i], w.active, "an image" );
        x.call();
        x.check( what );
        if ( x.c.retImg && !x.thrown )
            onDevice( x.d.img, w.active, "a result" );
        x.release();
    }

    void useKept( World & w, Kept & k )
    {
        if ( !w.usable() || k.device != w.active )
            return;
        Image out;
        const uint32_t what = sim_choose( 4 );
        std::vector<uint32_t> profile;
        Image host;
        mustWork( "an image on its device", [&] {
            switch ( what ) {
            case 0:
                out = Image_Function_Cuda::Invert( k.img );
                break;
            case 1: {
                Image copy( k.img );
                out.swap( copy );
                break;
            }
            case 2:
                host = Image_Function_Cuda::ConvertFromCuda( k.img );
                break;
            default:
                profile = Image_Function_Cuda::ProjectionProfile( k.img, false );
            }
        } );
        ops::RImg e = k.r;
        std::string why;
        Image h;
        if ( what <= 1 )
            hostCopy( out, h );
        if ( what == 0 )
            for ( uint32_t y = 0; y < e.h; ++y )
                for ( uint32_t x = 0; x < e.w * e.cc; ++x )
                    e.d[size_t( y ) * e.rs + x] = uint8_t( ~e.d[size_t( y ) * e.rs + x] );
        if ( what <= 1 && !ops::pixelsEqual( h, e, why ) )
            bad( "wrong-result", "an image which was created before: " + why );
        if ( what == 2 && !ops::pixelsEqual( host, e, why ) )
            bad( "wrong-result", "an image which was created before: " + why );
        if ( what == 3 )
            for ( uint32_t y = 0; y < e.h; ++y ) {
                uint32_t sum = 0;
                for ( uint32_t x = 0; x < e.w * e.cc; ++x )
                    sum += e.d[size_t( y ) * e.rs + x];
                if ( profile.size() != e.h || profile[y] != sum )
                    sim_fail( "wrong-result", "a projection profile of an image which was created before" );
            }
        if ( what <= 1 )
            onDevice( out, w.active, "a result" );
        sim_count( "probe.image-at-home", 1 );
        checkKept( k, "an image which has been used" );
        SimSut sut;
        out = Image();
    }

    void history( World & w )
    {
        const uint32_t steps = 3 + sim_choose( 12 );
        for ( uint32_t s = 0; s < steps; ++s ) {
            const int d = sim_choose( 8 ) ? int( sim_choose( uint32_t( w.n ) ) ) : int( sim_choose( uint32_t( w.n ) + 3 ) ) - 1;
            const bool valid = d >= 0 && d < w.n;
            switch ( sim_choose( 18 ) ) {
            case 16: { // memory of a device which is not the active one
                uint8_t * p = nullptr;
                const size_t size = 1 + sim_choose( 6000 );
                const Outcome o = attempt( [&] { p = multiCuda::MemoryManager::memory( d ).allocate( size ); } );
                expect( o, valid && w.open[d], "allocation of memory", d );
                if ( o.thrown )
                    break;
                if ( cuda_mem_device( p ) != d || cuda_mem_size( p ) < size )
                    sim_fail( "wrong-device", "memory of device %d is allocated on device %d", d, cuda_mem_device( p ) );
                const bool own = sim_choose( 2 ) != 0;
                mustWork( "freeing device memory", [&] {
                    if ( own )
                        multiCuda::MemoryManager::memory( d ).free( p );
                    else
                        multiCuda::MemoryManager::free( p );
                } );
                sim_count( "probe.memory-of-device", 1 );
                break;
            }
            case 17: // a thread waits for the work of a device which is not the active one
                if ( valid && w.open[d] && w.usable() ) {
                    const uint32_t n = 1 + sim_choose( 30 );
                    const int own = w.active;
                    const std::vector<uint32_t> zero( n, 0u );
                    mustWork( "waiting for a device", [&] {
                        multiCuda::Array<uint32_t> counts( zero );
                        const multiCuda::KernelParameters p = multiCuda::getKernelParameters( n, 0u );
                        SIMCUDA_LAUNCH( touch1, ( p.blocksPerGrid, p.threadsPerBlock, p.sharedMemorySize, p.stream ), counts.data(), n );
                        multiCuda::validateKernel();
                        man().setActiveDevice( d );
                        man().device( own ).synchronize();
                        std::vector<uint32_t> got( n );
                        cuda_peek( counts.data(), got.data(), n * sizeof( uint32_t ) );
                        man().setActiveDevice( own );
                        for ( uint32_t i = 0; i < n; ++i )
                            if ( got[i] != 1 )
                                sim_fail( "not-finished", "a kernel on device %d is not finished after a synchronisation with the device", own );
                    } );
                    sim_count( "probe.synchronize", 1 );
                }
                break;
            case 0:
            case 1: {
                const Outcome o = attempt( [&] { man().initializeDevice( d ); } );
                expect( o, valid, "initializeDevice", d );
                if ( valid )
                    w.opened( d );
                break;
            }
            case 2: {
                w.leave( d );
                const Outcome o = attempt( [&] { man().closeDevice( d ); } );
                expect( o, valid, "closeDevice", d );
                if ( valid )
                    w.open[d] = false;
                break;
            }
            case 3:
                if ( sim_choose( 2 ) ) {
                    for ( int i = 0; i < w.n; ++i )
                        w.leave( i );
                    mustWork( "closing the devices", [] { man().closeDevices(); } );
                    std::fill( w.open, w.open + 4, false );
                }
                else {
                    mustWork( "opening the devices", [] { man().initializeDevices(); } );
                    for ( int i = 0; i < w.n; ++i )
                        w.opened( i );
                }
                break;
            case 4:
            case 5: {
                const Outcome o = attempt( [&] { man().setActiveDevice( d ); } );
                expect( o, valid && w.open[d], "setActiveDevice", d );
                if ( !o.thrown )
                    w.active = d;
                break;
            }
            case 6:
            case 7:
            case 8:
                if ( w.kept.size() < 4 ) {
                    std::unique_ptr<Kept> k( new Kept );
                    k->r.make( ops::side( 10 ), ops::side( 10 ), ops::colours3(), ops::alignmentChoice() );
                    ops::paint( k->r, sim_choose( 1u << 30 ), 1 );
                    const Outcome o = attempt( [&] { devImage( k->img, k->r ); } );
                    expect( o, w.usable(), "creating an image", w.active );
                    if ( !o.thrown ) {
                        k->device = w.active;
                        k->pooled = w.pool[w.active];
                        onDevice( k->img, w.active, "an image" );
                        w.kept.push_back( std::move( k ) );
                    }
                }
                break;
            case 9:
                if ( !w.kept.empty() ) {
                    SimSut sut;
                    w.kept.erase( w.kept.begin() + sim_choose( uint32_t( w.kept.size() ) ) );
                }
                break;
            case 10:
            case 11:
                if ( w.usable() )
                    callOnActive( w, "" );
                else {
                    const Outcome o = attempt( [&] {
                        Image i = ImageCuda( 3, 3 );
                        Image_Function_Cuda::Invert( i );
                    } );
                    expect( o, false, "a function", w.active );
                }
                break;
            case 12:
            case 13:
                if ( !w.kept.empty() )
                    useKept( w, *w.kept[sim_choose( uint32_t( w.kept.size() ) )] );
                break;
            case 14: {
                size_t size = 0, streams = 0;
                int id = -1;
                const uint32_t q = sim_choose( 4 ), cur = sim_choose( 4 );
                cuda_finish();
                const Outcome o = attempt( [&] {
                    multiCuda::CudaDevice & x = man().device( d );
                    id = x.deviceId();
                    size = x.totalMemorySize();
                    x.setStreamCount( q );
                    x.setCurrentStreamId( cur );
                    x.synchronize();
                    streams = x.streamCount();
                    if ( cur < q ? x.currentStreamId() != cur : x.currentStreamId() >= ( q ? q : 1 ) )
                        sim_fail( "wrong-result", "stream %zu of %u is the current one instead of %u", x.currentStreamId(), q, cur );
                } );
                expect( o, valid && w.open[d], "device", d );
                if ( !o.thrown && ( streams != q || size == 0 || id != d ) )
                    sim_fail( "wrong-result", "%zu streams instead of %u", streams, q );
                break;
            }
            default: {
                bool live = false;
                for ( auto & k : w.kept )
                    live = live || k->device == d;
                if ( !live ) {
                    const Outcome o = attempt( [&] { multiCuda::MemoryManager::memory( d ).reserve( 1 + ( size_t( s ) + 3 ) * 5000 ); } );
                    expect( o, valid && w.open[d], "reservation of memory", d );
                    if ( !o.thrown )
                        w.pool[d] = true;
                    sim_count( "probe.reserved", 1 );
                }
            }
            }
            if ( man().deviceCount() != w.count() || man().supportedDeviceCount() != w.n )
                sim_fail( "wrong-result", "%d devices of %d are open instead of %d of %d", man().deviceCount(), man().supportedDeviceCount(), w.count(), w.n );
            if ( cuda_current( -1 ) != w.active )
                sim_fail( "wrong-device", "device %d is active instead of %d", cuda_current( -1 ), w.active );
        }
        for ( auto & k : w.kept )
            checkKept( *k, "an image" );
        // images are destroyed whatever device is active, open or closed
        SimSut sut;
        w.kept.clear();
    }

    void crowd( World & w )
    {
        // phases of work of several threads between changes of devices
        const uint32_t phases = 1 + sim_choose( 2 );
        for ( uint32_t p = 0; p < phases; ++p ) {
            mustWork( "opening the devices", [] { man().initializeDevices(); } );
            mustWork( "setActiveDevice", [&] { man().setActiveDevice( w.active ); } );
            if ( sim_choose( 2 ) )
                for ( int i = 0; i < w.n; ++i )
                    reservePool( i );
            if ( sim_choose( 2 ) )
                for ( int i = 0; i < w.n; ++i )
                    mustWork( "setStreamCount", [&] { man().device( i ).setStreamCount( sim_choose( 3 ) ); } );
            struct Plan
            {
                bool set = false;
                int device = 0, second = 0;
                std::vector<Call> calls;
                bool values = false, fill = false;
            };
            const uint32_t n = 2 + sim_choose( 2 );
            std::vector<Plan> plan( n );
            const bool same = sim_choose( 2 ) == 0;
            for ( Plan & x : plan ) {
                x.device = x.second = same ? 0 : int( sim_choose( uint32_t( w.n ) ) );
                x.set = x.device != 0 || sim_choose( 2 );
                if ( sim_choose( 4 ) == 0 )
                    x.second = int( sim_choose( uint32_t( w.n ) ) );
                x.values = sim_choose( 4 ) == 0;
                x.fill = sim_choose( 3 ) == 0;
                x.calls.resize( 1 + sim_choose( 2 ) );
                for ( Call & c : x.calls ) {
                    ops::Limits lim;
                    lim.maxBytes = 100;
                    lim.maxSide = 10;
                    c.gen( FN[sim_choose( FNS )], lim );
                }
            }
            std::vector<std::thread> threads;
            for ( uint32_t t = 0; t < n; ++t )
                threads.emplace_back( [&plan, t] {
                    Plan & x = plan[t];
                    int now = x.device;
                    if ( x.set )
                        mustWork( "setActiveDevice", [&] { man().setActiveDevice( x.device ); } );
                    for ( size_t j = 0; j < x.calls.size(); ++j ) {
                        Call & c = x.calls[j];
                        if ( j == 1 && x.second != now ) {
                            now = x.second;
                            mustWork( "setActiveDevice", [&] { man().setActiveDevice( now ); } );
                        }
                        c.build();
                        for ( int i = 0; i < c.c.nin; ++i )
                            onDevice( c.d.in[i], now, "an image of a thread" );
                        c.call();
                        c.check( "next to other threads: " );
                        c.release();
                    }
                    if ( x.fill ) {
                        Image i;
                        mustWork( "fill of a device image", [&] {
                            i = ImageCuda( 7, 5, 1, 4 );
                            i.fill( uint8_t( 17 + t ) );
                        } );
                        Image h;
                        hostCopy( i, h );
                        const size_t m = size_t( h.rowSize() ) * h.height();
                        sim_read( h.data(), m );
                        for ( size_t k = 0; k < m; ++k )
                            if ( h.data()[k] != 17 + t )
                                sim_fail( "image-content", "an image of a thread was filled with another value" );
                        SimSut sut;
                        i = Image();
                    }
                    if ( x.values ) {
                        std::vector<uint32_t> v( 5, 1000 + t ), r;
                        mustWork( "multiCuda::Array", [&] {
                            multiCuda::Array<uint32_t> a( v );
                            r = a.get();
                        } );
                        if ( r != v )
                            sim_fail( "array", "an array of a thread does not keep its values" );
                    }
                } );
            for ( std::thread & x : threads )
                x.join();
            callOnActive( w, "after the threads: " );
            if ( sim_choose( 2 ) ) {
                const int d = int( sim_choose( uint32_t( w.n ) ) );
                mustWork( "closing a device", [&] { man().closeDevice( d ); } );
            }
            else
                mustWork( "closing the devices", [] { man().closeDevices(); } );
        }
    }

    void devices()
    {
        World w;
        const bool threads = sim_choose( 2 ) == 0;
        const CudaConfig k = config( 4 );
        w.n = k.devices;
        cuda_begin( k );
        atexit( cuda_check_released );
        if ( threads ) {
            w.active = int( sim_choose( uint32_t( w.n ) ) );
            crowd( w );
        }
        else
            history( w );
        sim_exit_normally();
    }

    // --- objects which exist as long as the process
    typedef multiCuda::Type<uint32_t> Value;
    typedef multiCuda::Array<uint32_t> Values;
    life::Place<ImageCuda> lifeImage[3];
    life::Place<ImageCudaPinned> lifePinned[2];
    life::Place<Value> lifeValue[2];
    life::Place<Values> lifeArray[2];

    bool g_unloaded = false;
    void lifetimeEnd()
    {
        cuda_faults_off();
        if ( !g_unloaded )
            cuda_check_released();
    }

    void lifetime()
    {
        const CudaConfig k = config( 3 );
        cuda_begin( k );
        sim_at_end( lifetimeEnd );
        cuda_late_release();
        bool open = false;
        auto tryIt = [&]( const char * what, const std::function<void()> & f ) { mustWork( what, f ); };
        const uint32_t steps = 2 + sim_choose( 10 );
        for ( uint32_t s = 0; s < steps; ++s ) {
            const uint32_t i = sim_choose( 3 );
            switch ( sim_choose( 10 ) ) {
            case 0:
            case 1:
                life::make( lifeImage[i] );
                break;
            case 2:
                if ( open && i < 2 )
                    tryIt( "a value", [&] { life::make( lifeValue[i] ); } );
                break;
            case 3:
                if ( open && i < 2 )
                    tryIt( "an array", [&] { life::make( lifeArray[i], size_t( 5 ) ); } );
                break;
            case 4:
            case 5:
                if ( !open ) {
                    openAll();
                    open = true;
                }
                break;
            case 6:
                if ( open ) {
                    const int d = int( sim_choose( uint32_t( man().deviceCount() ) ) );
                    tryIt( "changing the active device", [&] { man().setActiveDevice( d ); } );
                }
                break;
            case 7:
                if ( open ) {
                    const size_t n = size_t( 1024 ) << sim_choose( 8 );
                    try {
                        SimSut sut;
                        multiCuda::MemoryManager::memory().reserve( n );
                        sim_count( "probe.reserve", 1 );
                    }
                    catch ( const std::logic_error & ) { // there are blocks in use
                    }
                }
                break;
            case 8:
                if ( i < 2 ) {
                    life::make( lifePinned[i] );
                    if ( open && sim_choose( 2 ) ) {
                        const uint32_t w = 1 + sim_choose( 12 ), h = 1 + sim_choose( 12 );
                        tryIt( "resizing a pinned image", [&] { lifePinned[i].get()->resize( w, h ); } );
                    }
                }
                break;
            default:
                if ( open && lifeImage[i].have ) {
                    const uint32_t w = 1 + sim_choose( 12 ), h = 1 + sim_choose( 12 ), v = sim_choose( 256 ), how = sim_choose( 3 );
                    ImageCuda & image = *lifeImage[i].get();
                    tryIt( "use of an image", [&] {
                        if ( how == 0 ) {
                            ImageCuda t( w, h );
                            image = std::move( t );
                        }
                        else if ( how == 1 ) {
                            image.resize( w, h );
                            image.fill( uint8_t( v ) );
                        }
                        else
                            image.clear();
                    } );
                }
                break;
            }
        }
        if ( open && sim_choose( 4 ) == 3 )
            tryIt( "closing the devices", [] { man().closeDevices(); } );
        if ( sim_choose( 6 ) == 5 ) { // the driver is unloaded before the end of the process
            g_unloaded = true;
            cuda_lost_at( 1 );
            sim_count( "probe.unloaded-driver", 1 );
        }
        sim_exit_normally();
    }

    SimScenario s4( "cuda_life", lifetime );
    SimScenario s1( "cuda_exact", exact );
    SimScenario s2( "cuda_failures", failures );
    SimScenario s3( "cuda_devices", devices );
}
