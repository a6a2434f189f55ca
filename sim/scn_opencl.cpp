// C19, C20, C21: the OpenCL part of the library on simulated devices
#include "disk.h"
#include "life.h"
#include "ops.h"
#include "rt.h"
#include "simcl.h"
#include "image_function_helper.h"
#include "penguinv/penguinv.h"
#include "opencl/image_buffer_opencl.h"
#include "opencl/image_function_opencl.h"
#include "opencl/opencl_device.h"
#include "opencl/opencl_helper.h"
#include "opencl/opencl_types.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace
{
    namespace clf
    {
        namespace NS = Image_Function_OpenCL;
#define OPS_COPY
#define OPS_SETPIXEL
#define OPS_NO_TRANSPOSE
#include "op_exec.inc"
    }

    namespace generic
    {
        namespace NS2 = penguinV;
#undef OPS_NO_TRANSPOSE
#define OPS_BGR
#define OPS_SUM
#define OPS_RESIZE
#define OPS_MERGE
#define OPS_ACCUMULATE
#define OPS_GETPIXEL
#define NS NS2
#include "op_exec.inc"
#undef NS
    }

    using multiCL::OpenCLDeviceManager;
    using penguinV::Image;
    using penguinV::ImageOpenCL;

    const int FN[] = { ops::AbsoluteDifference, ops::BitwiseAnd, ops::BitwiseOr, ops::BitwiseXor, ops::Maximum, ops::Minimum, ops::Subtract,
                       ops::Invert, ops::GammaCorrection, ops::LookupTable, ops::Threshold1, ops::Threshold2, ops::ConvertToGrayScale, ops::ConvertToRgb,
                       ops::Copy, ops::ExtractChannel, ops::Fill, ops::Flip, ops::Histogram, ops::IsEqual, ops::Normalize, ops::ProjectionProfile,
                       ops::SetPixel1, ops::SetPixel2 };
    const uint32_t FNS = sizeof FN / sizeof *FN;

    OpenCLDeviceManager & man()
    {
        return OpenCLDeviceManager::instance();
    }

    struct Outcome
    {
        bool thrown = false;
        std::string what;
    };

    template <typename F>
    Outcome attempt( const F & f )
    {
        Outcome o;
        SimSut sut;
        try {
            f();
        }
        catch ( const std::exception & e ) {
            o.thrown = true;
            SimRt rt;
            o.what = e.what();
        }
        catch ( ... ) {
            o.thrown = true;
        }
        return o;
    }

    [[noreturn]] void bad( const char * cls, const std::string & s )
    {
        SimRt rt;
        sim_fail( cls, "%s", s.c_str() );
    }

    template <typename F>
    void mustWork( const char * what, const F & f )
    {
        const Outcome o = attempt( f );
        if ( o.thrown )
            bad( "unexpected-exception", std::string( what ) + " fails: " + o.what );
    }

    ClConfig config( int maxDevices )
    {
        static const uint32_t wg[] = { 16, 1, 2, 3, 6, 8, 12, 30, 64 };
        static const uint32_t align[] = { 1024, 8, 32, 128, 4096 };
        ClConfig k;
        k.platforms = maxDevices > 1 ? 1 + int( sim_choose( 2 ) ) : 1;
        const int n = maxDevices > 1 ? 2 + int( sim_choose( uint32_t( maxDevices - 1 ) ) ) : 1;
        k.devices[0] = k.platforms == 2 ? 1 + int( sim_choose( uint32_t( n - 1 ) ) ) : n;
        k.devices[1] = n - k.devices[0];
        for ( int i = 0; i < n; ++i ) {
            k.dev[i].wg = wg[sim_choose( sizeof wg / sizeof *wg )];
            k.dev[i].alignBits = align[sim_choose( 5 )];
            k.dev[i].maxAlloc = 1u << 18;
            k.dev[i].capacity = 1u << 22;
            k.dev[i].cpu = sim_choose( 3 ) == 0;
        }
        k.reuse = sim_choose( 2 ) != 0;
        k.eager = sim_choose( 9 );
        k.junk = sim_choose( 2 ) ? 0xCD : uint8_t( sim_choose( 256 ) );
        k.order = sim_choose( 4 );
        return k;
    }

    ops::Limits limits()
    {
        ops::Limits lim;
        lim.maxBytes = sim_choose( 6 ) == 0 ? 900 : 240;
        lim.maxSide = 20;
        return lim;
    }

    // --- images on a device
    void devImage( Image & i, const ops::RImg & r )
    {
        i = ImageOpenCL( r.w, r.h, uint8_t( r.cc ), uint8_t( r.al ) );
        if ( r.d.empty() )
            return;
        if ( i.empty() || i.width() != r.w || i.height() != r.h || i.colorCount() != r.cc || i.rowSize() != r.rs || i.type() != ImageOpenCL().type() )
            sim_fail( "image-geometry", "a new device image of %ux%ux%u aligned to %u has another geometry", r.w, r.h, r.cc, r.al );
        if ( cl_mem_size( i.data() ) < r.d.size() )
            sim_fail( "image-memory", "a device image of %zu bytes has %zu bytes of memory", r.d.size(), cl_mem_size( i.data() ) );
        SimRt rt;
        cl_poke( i.data(), r.d.data(), r.d.size() );
    }

    void hostCopy( const Image & d, Image & h )
    {
        if ( d.type() != ImageOpenCL().type() )
            sim_fail( "image-type", "an image of type %d instead of a device image", d.type() );
        if ( d.empty() ) {
            h = Image();
            return;
        }
        h = Image( d.width(), d.height(), d.colorCount(), d.alignment() );
        if ( h.rowSize() != d.rowSize() || cl_mem_size( d.data() ) < size_t( h.rowSize() ) * h.height() )
            sim_fail( "image-memory", "a device image of %ux%ux%u has %zu bytes of memory", d.width(), d.height(), d.colorCount(), cl_mem_size( d.data() ) );
        uint8_t * p = h.data();
        const size_t n = size_t( h.rowSize() ) * h.height();
        sim_write( p, n );
        SimRt rt;
        cl_peek( d.data(), p, n );
    }

    bool onlyGray( const ops::Case & c )
    {
        switch ( c.fn ) {
        case ops::GammaCorrection:
        case ops::Flip:
        case ops::Histogram:
        case ops::Threshold1:
        case ops::Threshold2:
            return true;
        case ops::Fill:
            return c.form >= 2 || c.out[0].rs != c.out[0].w * c.out[0].cc;
        default:
            return false;
        }
    }

    struct Call
    {
        ops::Case c;
        ops::Live d;
        bool thrown = false;
        std::string what;

        std::string text() const
        {
            char b[200];
            snprintf( b, sizeof b, "OpenCL %s (form %d, %ux%u, %u colours%s)", ops::name( c.fn ), c.form, c.w, c.h, c.nin ? c.in[0].cc : c.out[0].cc,
                      c.inPlace ? ", in place" : "" );
            return b;
        }
        void gen( int fn, const ops::Limits & lim )
        {
            ops::generate( c, fn, lim );
        }
        void build()
        {
            SimSut sut;
            for ( int i = 0; i < c.nin; ++i )
                devImage( d.in[i], c.in[i] );
            if ( !c.inPlace )
                for ( int i = 0; i < c.nout; ++i )
                    devImage( d.out[i], c.out[i] );
            d.vec = c.vec0;
        }
        void call()
        {
            const Outcome o = attempt( [this] { clf::exec( c, d ); } );
            thrown = o.thrown;
            SimRt rt;
            what = o.what;
        }
        bool unsupported() const
        {
            return onlyGray( c ) && ( ( c.nin && c.in[0].cc != 1 ) || ( c.nout && c.out[0].cc != 1 ) );
        }
        void down( ops::Live & h )
        {
            for ( int i = 0; i < c.nin; ++i )
                hostCopy( d.in[i], h.in[i] );
            if ( !c.inPlace )
                for ( int i = 0; i < c.nout; ++i )
                    hostCopy( d.out[i], h.out[i] );
            if ( c.retImg && !thrown )
                hostCopy( d.img, h.img );
            SimRt rt;
            h.vec = d.vec;
            h.num = d.num;
        }
        void check( const char * context )
        {
            ops::Live h;
            std::string why;
            down( h );
            if ( thrown ) {
                if ( !unsupported() )
                    bad( "unexpected-exception", context + text() + ": " + what );
                if ( !ops::inputsIntact( c, h, why ) )
                    bad( "input-changed", context + text() + ": " + why );
                return;
            }
            if ( !ops::inputsIntact( c, h, why ) )
                bad( "input-changed", context + text() + ": " + why );
            if ( !ops::resultsExact( c, h, why ) )
                bad( "wrong-result", context + text() + ": " + why );
            sim_count( "probe.checked-call", 1 );
        }
        void checkFailed( const char * context )
        {
            ops::Live h;
            std::string why;
            down( h );
            if ( !ops::inputsIntact( c, h, why ) )
                bad( "failed-call-damage", context + text() + ": " + why );
            if ( !ops::outsideIntact( c, h, why ) )
                bad( "failed-call-damage", context + text() + ": " + why );
        }
        void release()
        {
            SimSut sut;
            d = ops::Live();
        }
    };

    // --- programs of a user
    const char * const USER = R"(
        __kernel void touch1( __global uint * c, uint w )
        {
            const size_t x = get_global_id(0);
            if( x < w )
                atomic_add( &c[x], 1 );
        }
        __kernel void touch2( __global uint * c, uint w, uint h )
        {
            const size_t x = get_global_id(0);
            const size_t y = get_global_id(1);
            if( x < w && y < h )
                atomic_add( &c[y * w + x], 1 );
        }
        __kernel void touch3( __global uint * c, uint w, uint h, uint d )
        {
            const size_t x = get_global_id(0);
            const size_t y = get_global_id(1);
            const size_t z = get_global_id(2);
            if( x < w && y < h && z < d )
                atomic_add( &c[(z * h + y) * w + x], 1 );
        }
        __kernel void scaleAll( __global const uint * in, __global uint * out, uchar by, ushort plus, float factor, ulong n )
        {
            const size_t x = get_global_id(0);
            if( x < n )
                out[x] = in[x] * by + plus + (uint)factor;
        }
        )";
    const char * const BROKEN = "__kernel void touch1( __global uint * c, uint w ) { c[w] = undefinedName; }";

    void runTouch( const multiCL::OpenCLProgram & program, uint32_t dim, uint32_t w, uint32_t h, uint32_t d, std::vector<uint32_t> & got )
    {
        const size_t n = size_t( w ) * ( dim > 1 ? h : 1 ) * ( dim > 2 ? d : 1 );
        std::vector<uint32_t> zero( n, 0u );
        multiCL::Array<uint32_t> counts( zero );
        multiCL::OpenCLKernel kernel( program, dim == 1 ? "touch1" : ( dim == 2 ? "touch2" : "touch3" ) );
        if ( dim == 1 ) {
            kernel.setArgument( counts.data(), w );
            multiCL::launchKernel1D( kernel, w );
        }
        else if ( dim == 2 ) {
            kernel.setArgument( counts.data(), w, h );
            multiCL::launchKernel2D( kernel, w, h );
        }
        else {
            kernel.setArgument( counts.data(), w, h, d );
            multiCL::launchKernel3D( kernel, w, h, d );
        }
        got = counts.get();
    }

    void checkTouch( uint32_t dim, uint32_t w, uint32_t h, uint32_t d, const std::vector<uint32_t> & got )
    {
        const size_t n = size_t( w ) * ( dim > 1 ? h : 1 ) * ( dim > 2 ? d : 1 );
        if ( got.size() != n )
            sim_fail( "kernel-launch", "an array of %zu values has %zu values", n, got.size() );
        for ( size_t i = 0; i < n; ++i )
            if ( got[i] != 1 )
                sim_fail( "kernel-launch", "work item %zu of a %u-dimensional launch of %ux%ux%u was executed %u times", i, dim, w, h, d, got[i] );
        sim_count( "probe.custom-kernel", 1 );
    }

    // --- everything which builds a program, for cl_warm()
    void builder()
    {
        ClConfig k;
        cl_begin( k );
        multiCL::enableDeviceSupport( true, true );
        man().resetSupportedDevice();
        man().initializeDevices();
        for ( uint32_t i = 0; i < FNS; ++i )
            for ( uint32_t form = 0; form < 4; ++form ) {
                Call x;
                x.gen( FN[i], limits() );
                try {
                    x.build();
                    x.call();
                }
                catch ( ... ) {
                }
            }
        auto quiet = []( void ( *f )() ) {
            try {
                f();
            }
            catch ( ... ) {
            }
        };
        quiet( [] {
            ImageOpenCL i( 5, 5 );
            i.fill( 1 );
            penguinV::ImageTemplateOpenCL<uint16_t> j( 5, 5 );
            j.fill( 1 );
            ImageOpenCL n( i );
            n = i;
        } );
        quiet( [] {
            Image i( 5, 5, 3, 4 );
            Image j = Image_Function_OpenCL::ConvertToOpenCL( i );
            Image_Function_OpenCL::ConvertFromOpenCL( j );
        } );
        quiet( [] { multiCL::OpenCLProgram p( man().device().context(), USER ); } );
        quiet( [] { multiCL::OpenCLProgram p( man().device().context(), BROKEN ); } );
        quiet( [] { multiCL::OpenCLProgram p( man().device().context(), "" ); } );
    }

    void warm()
    {
        cl_warm( builder );
    }

    void openAll()
    {
        mustWork( "opening the devices", [] {
            multiCL::enableDeviceSupport( true, true );
            man().resetSupportedDevice();
            man().initializeDevices();
        } );
    }

    // --- steps of C19
    void stepFunction()
    {
        Call x;
        x.gen( FN[sim_choose( FNS )], limits() );
        x.build();
        x.call();
        x.check( "" );
        if ( x.thrown )
            sim_count( "probe.unsupported", 1 );
        if ( sim_choose( 4 ) == 0 ) { // again with the same images
            for ( int i = 0; i < x.c.nin; ++i )
                cl_poke( x.d.in[i].data(), x.c.in[i].d.data(), x.c.in[i].d.size() );
            for ( int i = 0; !x.c.inPlace && i < x.c.nout; ++i )
                if ( !( x.c.fn == ops::Copy && x.c.form == 1 ) )
                    cl_poke( x.d.out[i].data(), x.c.out[i].d.data(), x.c.out[i].d.size() );
            x.d.vec = x.c.vec0;
            x.call();
            x.check( "second call: " );
        }
        x.release();
    }

    void samePixels( const Image & i, const ops::RImg & r, const char * what )
    {
        std::string why;
        if ( !ops::pixelsEqual( i, r, why ) )
            bad( "transfer", std::string( what ) + ": " + why );
    }

    void stepTransfer()
    {
        ops::RImg r;
        const uint32_t cc = ops::colours3();
        r.make( ops::side( 20 ), ops::side( 12 ), cc, ops::alignmentChoice() );
        ops::paint( r, sim_choose( 1u << 30 ), sim_choose( 6 ) );
        const uint32_t al2 = ops::alignmentChoice(), al3 = ops::alignmentChoice();
        Image h, dev, back;
        ops::Live::load( h, r );
        const bool auto1 = sim_choose( 3 ) == 0, auto2 = sim_choose( 3 ) == 0;
        mustWork( "ConvertToOpenCL", [&] {
            if ( auto1 )
                dev = Image_Function_OpenCL::ConvertToOpenCL( h );
            else {
                dev = ImageOpenCL( r.w, r.h, uint8_t( cc ), uint8_t( al2 ) );
                Image_Function_OpenCL::ConvertToOpenCL( h, dev );
            }
        } );
        {
            Image p;
            hostCopy( dev, p );
            samePixels( p, r, "a transfer to a device" );
        }
        mustWork( "ConvertFromOpenCL", [&] {
            if ( auto2 )
                back = Image_Function_OpenCL::ConvertFromOpenCL( dev );
            else {
                back = Image( r.w, r.h, uint8_t( cc ), uint8_t( al3 ) );
                Image_Function_OpenCL::ConvertFromOpenCL( dev, back );
            }
        } );
        if ( back.type() != Image().type() )
            sim_fail( "image-type", "an image converted to a host image has type %d", back.type() );
        samePixels( back, r, "a transfer from a device" );
        std::string why;
        if ( !ops::bufferEquals( h, r, why ) )
            bad( "input-changed", "a transfer to a device changes its input: " + why );
        sim_count( "probe.transfer", 1 );
        SimSut sut;
        dev = Image();
    }

    template <typename T>
    std::vector<T> peekAll( const penguinV::ImageTemplate<T> & i )
    {
        std::vector<T> v( size_t( i.rowSize() ) * i.height() );
        SimRt rt;
        if ( !v.empty() )
            cl_peek( i.data(), v.data(), v.size() * sizeof( T ) );
        return v;
    }

    template <typename T>
    void imageOps()
    {
        typedef penguinV::ImageTemplateOpenCL<T> Img;
        const uint32_t w = 1 + sim_choose( 12 ), h = 1 + sim_choose( 8 ), cc = ops::colours3(), al = ops::alignmentChoice();
        Img a;
        mustWork( "creating a device image", [&] { a = Img( w, h, uint8_t( cc ), uint8_t( al ) ); } );
        std::vector<T> va( size_t( a.rowSize() ) * a.height() ), vb;
        for ( size_t i = 0; i < va.size(); ++i )
            va[i] = T( i * 2654435761u >> 7 );
        if ( cl_mem_size( a.data() ) < va.size() * sizeof( T ) )
            sim_fail( "image-memory", "a device image of %zu bytes has %zu bytes of memory", va.size() * sizeof( T ), cl_mem_size( a.data() ) );
        cl_poke( a.data(), va.data(), va.size() * sizeof( T ) );
        std::unique_ptr<Img> b;
        const uint32_t steps = 1 + sim_choose( 4 );
        auto same = [&]( const Img & x, const std::vector<T> & v, const char * what ) {
            if ( x.type() != Img().type() )
                sim_fail( "image-type", "%s: an image of type %d", what, x.type() );
            if ( peekAll( x ) != v )
                sim_fail( "image-content", "%s: an image of %zu-byte values has another content", what, sizeof( T ) );
        };
        for ( uint32_t s = 0; s < steps; ++s ) {
            switch ( sim_choose( 6 ) ) {
            case 0:
                mustWork( "copy construction of a device image", [&] { b.reset( new Img( a ) ); } );
                vb = va;
                break;
            case 1:
                mustWork( "assignment of a device image", [&] {
                    if ( !b )
                        b.reset( new Img );
                    *b = a;
                } );
                vb = va;
                break;
            case 2:
                mustWork( "move construction of a device image", [&] {
                    Img t( std::move( a ) );
                    a = t;
                } );
                break;
            case 3: {
                const T v = T( sim_choose( 1u << 16 ) );
                mustWork( "fill of a device image", [&] { a.fill( v ); } );
                std::fill( va.begin(), va.end(), v );
                break;
            }
            case 4:
                if ( b ) {
                    mustWork( "swap of device images", [&] { a.swap( *b ); } );
                    std::swap( va, vb );
                }
                break;
            default:
                mustWork( "move assignment of a device image", [&] {
                    Img t( a );
                    Img u;
                    u = std::move( t );
                    t = u;
                    a = std::move( t );
                } );
            }
            same( a, va, "an image" );
            if ( b )
                same( *b, vb, "a copy" );
        }
        sim_count( "probe.device-images", 1 );
        SimSut sut;
        b.reset();
        a = Img();
    }

    struct Wide
    {
        uint32_t a, b, c;
        bool operator==( const Wide & o ) const
        {
            return a == o.a && b == o.b && c == o.c;
        }
    };
    template <typename T>
    T value()
    {
        return T( sim_choose( 1u << 20 ) );
    }
    template <>
    Wide value<Wide>()
    {
        return Wide{ sim_choose( 1000 ), sim_choose( 1000 ), sim_choose( 1000 ) };
    }

    template <typename T>
    void typeOps()
    {
        std::vector<T> v( sim_choose( 40 ) );
        for ( T & x : v )
            x = value<T>();
        const T one = value<T>(), two = value<T>();
        std::vector<T> r1, r2, r3;
        T g1{}, g2{}, g3{};
        size_t s1 = 0, s2 = 0;
        bool e1 = false;
        const size_t n2 = sim_choose( 40 );
        mustWork( "multiCL::Array and multiCL::Type", [&] {
            multiCL::Array<T> a( v );
            r1 = a.get();
            s1 = a.size();
            e1 = a.empty();
            multiCL::Array<T> b( std::move( a ) );
            multiCL::Array<T> c( n2 );
            c = std::move( b );
            r2 = c.get();
            c.resize( n2 );
            s2 = c.size();
            if ( n2 && cl_mem_size( c.data() ) < n2 * sizeof( T ) )
                sim_fail( "array", "an array of %zu values has %zu bytes", n2, cl_mem_size( c.data() ) );
            c = v;
            r3 = c.get();
            multiCL::Type<T> t( one );
            g1 = t.get();
            t = two;
            g2 = t.get();
            multiCL::Type<T> u( std::move( t ) );
            multiCL::Type<T> w;
            w = std::move( u );
            g3 = w.get();
        } );
        if ( !( r1 == v ) || !( r2 == v ) || !( r3 == v ) || s1 != v.size() || s2 != n2 || e1 != v.empty() )
            sim_fail( "array", "an array of %zu values does not keep its values", v.size() );
        if ( !( g1 == one ) || !( g2 == two ) || !( g3 == two ) )
            sim_fail( "type", "a single value in device memory is not kept" );
        sim_count( "probe.device-values", 1 );
    }

    void stepMemory()
    {
        static const uint8_t sizes[] = { 1, 2, 4, 8, 16 };
        const uint32_t ps = sizes[sim_choose( 5 )];
        const size_t n = ps * ( 1 + sim_choose( 40 ) );
        std::vector<uint8_t> pat( ps ), want( n ), got( n );
        for ( uint8_t & x : pat )
            x = uint8_t( sim_choose( 256 ) );
        for ( size_t i = 0; i < n; ++i )
            want[i] = uint8_t( i * 7 + 3 );
        const size_t off = ps * sim_choose( uint32_t( n / ps ) ), len = ps * ( 1 + sim_choose( uint32_t( ( n - off ) / ps ) ) );
        const size_t rd = 1 + sim_choose( uint32_t( n ) );
        std::vector<uint8_t> part( rd ), src( rd );
        for ( size_t i = 0; i < rd; ++i )
            src[i] = uint8_t( i * 11 + 1 );
        cl_mem m = nullptr;
        mustWork( "allocation of device memory", [&] { m = multiCL::MemoryManager::memory().allocate<uint8_t>( n ); } );
        cl_poke( m, want.data(), n );
        const uint32_t act = sim_choose( 3 );
        if ( act == 0 ) {
            mustWork( "memorySet", [&] { multiCL::MemoryManager::memorySet( m, pat.data(), ps, off, len ); } );
            for ( size_t i = 0; i < len; ++i )
                want[off + i] = pat[i % ps];
        }
        else if ( act == 1 ) {
            mustWork( "writeBuffer", [&] { multiCL::writeBuffer( m, rd, src.data() ); } );
            memcpy( want.data(), src.data(), rd );
        }
        else {
            mustWork( "readBuffer", [&] { multiCL::readBuffer( m, rd, part.data() ); } );
            if ( memcmp( part.data(), want.data(), rd ) )
                sim_fail( "transfer", "readBuffer of %zu bytes gives other data", rd );
        }
        cl_peek( m, got.data(), n );
        if ( got != want )
            sim_fail( "memory-content", "device memory has another content after %s (%zu bytes, pattern of %u, offset %zu, size %zu)",
                      act == 0 ? "memorySet" : ( act == 1 ? "writeBuffer" : "readBuffer" ), n, ps, off, len );
        mustWork( "freeing device memory", [&] { multiCL::MemoryManager::memory().free( m ); } );
        sim_count( "probe.device-memory", 1 );
    }

    void stepKernel()
    {
        const uint32_t dim = 1 + sim_choose( 3 );
        const uint32_t w = 1 + sim_choose( 20 ), h = 1 + sim_choose( dim == 3 ? 6 : 12 ), d = 1 + sim_choose( 5 );
        const uint32_t how = sim_choose( 4 );
        std::vector<uint32_t> got;
        if ( how == 0 ) {
            // from a file
            {
                SimRt rt;
                sim_disk_put( "/user.cl", USER, strlen( USER ) );
            }
            mustWork( "a program from a file", [&] {
                const multiCL::OpenCLProgram p = multiCL::CreateProgramFromFile( "/user.cl" );
                runTouch( p, dim, w, h, d, got );
            } );
            checkTouch( dim, w, h, d, got );
        }
        else if ( how == 1 ) {
            std::vector<uint32_t> in( 1 + sim_choose( 30 ) ), out;
            for ( uint32_t & x : in )
                x = sim_choose( 1u << 16 );
            const uint8_t by = uint8_t( sim_choose( 256 ) );
            const uint16_t plus = uint16_t( sim_choose( 65536 ) );
            mustWork( "a kernel with several arguments", [&] {
                multiCL::OpenCLProgram p( man().device().context(), USER );
                multiCL::OpenCLKernel k( p, "scaleAll" );
                multiCL::Array<uint32_t> a( in ), b( in.size() );
                for ( int i = 0; i < 2; ++i ) {
                    k.reset();
                    k.setArgument( a.data(), b.data(), by, plus, 7.5f, static_cast<uint64_t>( in.size() ) );
                    multiCL::launchKernel1D( k, in.size() );
                }
                out = b.get();
            } );
            for ( size_t i = 0; i < in.size(); ++i )
                if ( out[i] != in[i] * by + plus + 7 )
                    sim_fail( "kernel-arguments", "a kernel does not get its arguments" );
        }
        else if ( how == 2 && sim_choose( 3 ) == 0 ) {
            const Outcome o = attempt( [&] { multiCL::OpenCLProgram p( man().device().context(), BROKEN ); } );
            if ( !o.thrown )
                sim_fail( "silent-failure", "a program which cannot be compiled is accepted" );
            sim_count( "probe.broken-program", 1 );
        }
        else {
            mustWork( "a program", [&] {
                multiCL::OpenCLProgram p( man().device().context(), USER );
                runTouch( p, dim, w, h, d, got );
            } );
            checkTouch( dim, w, h, d, got );
        }
    }

    void reservePool( uint32_t device )
    {
        const size_t n = sim_choose( 2 ) ? ( size_t( 1 ) << ( 8 + sim_choose( 9 ) ) ) : 1 + sim_choose( 60000 );
        mustWork( "reserving device memory", [&] { multiCL::MemoryManager::memory( device ).reserve( n ); } );
        sim_count( "probe.reserved", 1 );
    }

    void exact()
    {
        cl_begin( config( 1 ) );
        atexit( cl_check_released );
        openAll();
        if ( sim_choose( 2 ) )
            reservePool( 0 );
        if ( sim_choose( 4 ) == 0 ) {
            const uint32_t q = 1 + sim_choose( 3 );
            mustWork( "setQueueCount", [&] {
                man().device().setQueueCount( q );
                man().device().setCurrentQueueId( q - 1 );
            } );
        }
        const uint32_t n = 1 + sim_choose( 3 );
        for ( uint32_t i = 0; i < n; ++i )
            switch ( sim_choose( 12 ) ) {
            case 8:
                stepTransfer();
                break;
            case 9:
                if ( sim_choose( 3 ) == 0 )
                    imageOps<uint16_t>();
                else
                    imageOps<uint8_t>();
                break;
            case 10:
                switch ( sim_choose( 4 ) ) {
                case 0:
                    typeOps<uint8_t>();
                    break;
                case 1:
                    typeOps<uint32_t>();
                    break;
                case 2:
                    typeOps<double>();
                    break;
                default:
                    typeOps<Wide>();
                }
                break;
            case 11:
                if ( sim_choose( 2 ) )
                    stepMemory();
                else
                    stepKernel();
                break;
            default:
                stepFunction();
            }
        sim_exit_normally();
    }


    // --- C20
    uint64_t g_clBefore, g_memBefore;

    void arm( bool memory, bool async )
    {
        g_clBefore = cl_failed();
        g_memBefore = sim_alloc_failed();
        switch ( sim_choose( memory ? 8 : 6 ) ) {
        case 0:
        case 1:
            cl_fail_at( 1 + sim_choose( 12 ) );
            break;
        case 2:
            cl_fail_at( 1 + sim_choose( 40 ) );
            break;
        case 3:
            cl_lost_at( 1 + sim_choose( 30 ) );
            break;
        case 4:
            cl_faults( 2 + sim_choose( 12 ) );
            break;
        case 5:
            if ( async )
                cl_async_faults( 1 + sim_choose( 2 ) );
            else {
                static const char * const part[] = { "Create", "Get", "Enqueue", "Build", "Wait", "Set" };
                cl_fail_name( part[sim_choose( 6 )], 1 + sim_choose( 3 ) );
            }
            break;
        case 6:
            sim_alloc_fail_at( 1 + sim_choose( sim_choose( 2 ) ? 40 : 8 ) );
            break;
        default:
            sim_alloc_faults( 2 + sim_choose( 12 ) );
        }
    }

    bool disarm() // has anything failed?
    {
        cl_faults_off();
        sim_alloc_fail_at( 0 );
        sim_alloc_faults( 0 );
        const bool failed = cl_failed() != g_clBefore || sim_alloc_failed() != g_memBefore;
        g_clBefore = cl_failed();
        g_memBefore = sim_alloc_failed();
        return failed;
    }

    void judge( const Outcome & o, bool failed, const char * what )
    {
        if ( o.thrown && !failed )
            bad( "unexpected-exception", std::string( what ) + " fails: " + o.what );
        if ( o.thrown )
            sim_count( "probe.failed-call", 1 );
        else if ( failed )
            sim_count( "probe.survived-fault", 1 );
    }

    void failFunction()
    {
        Call x;
        x.gen( FN[sim_choose( FNS )], limits() );
        const bool used = sim_choose( 2 ) == 0, pool = sim_choose( 2 ) == 0;
        if ( pool )
            reservePool( 0 );
        if ( used ) {
            Call y;
            y.c = x.c;
            y.build();
            y.call();
            y.check( "" );
            y.release();
        }
        const uint64_t serial = sim_alloc_serial();
        const uint32_t tries = 1 + sim_choose( 3 );
        for ( uint32_t t = 0; t < tries; ++t ) {
            x.build();
            arm( true, true );
            x.call();
            const bool failed = disarm();
            if ( x.thrown && failed ) {
                x.checkFailed( "failed call of " );
                sim_count( "probe.failed-call", 1 );
                if ( sim_choose( 2 ) ) { // again with the same images
                    for ( int i = 0; i < x.c.nin; ++i )
                        cl_poke( x.d.in[i].data(), x.c.in[i].d.data(), x.c.in[i].d.size() );
                    if ( !( x.c.fn == ops::Copy && x.c.form == 1 ) ) {
                        for ( int i = 0; !x.c.inPlace && i < x.c.nout; ++i )
                            cl_poke( x.d.out[i].data(), x.c.out[i].d.data(), x.c.out[i].d.size() );
                        x.d.vec = x.c.vec0;
                        x.call();
                        x.check( "after a failed call: " );
                    }
                }
            }
            else
                x.check( failed ? "an OpenCL call failed but the function reported success: " : "" );
            x.release();
        }
        x.build();
        x.call();
        x.check( "after a failed call: " );
        x.release();
        if ( used && !pool ) {
            SimRt rt;
            char b[400];
            if ( sim_live_blocks( serial, b, sizeof b ) != 0 )
                sim_fail( "leak", "failed calls of %s leak:%s", x.text().c_str(), b );
        }
    }

    void failOpen()
    {
        multiCL::enableDeviceSupport( true, true );
        const uint32_t tries = 1 + sim_choose( 3 );
        for ( uint32_t t = 0; t < tries; ++t ) {
            const bool pool = sim_choose( 2 ) == 0;
            const uint32_t queues = sim_choose( 4 );
            arm( true, false );
            const Outcome o = attempt( [&] {
                man().resetSupportedDevice();
                man().initializeDevices();
                if ( man().deviceCount() > 0 ) {
                    if ( pool )
                        man().device( 0 ).allocator().reserve( 4096 );
                    if ( queues )
                        man().device( 0 ).setQueueCount( queues );
                }
            } );
            const bool failed = disarm();
            judge( o, failed, "opening the devices" );
            if ( !o.thrown ) {
                if ( man().deviceCount() != man().supportedDeviceCount() || ( !failed && man().deviceCount() == 0 ) )
                    sim_fail( "wrong-result", "%u of %u devices have been opened", man().deviceCount(), man().supportedDeviceCount() );
                if ( queues && man().deviceCount() && man().device( 0 ).queueCount() != queues )
                    sim_fail( "wrong-result", "%zu instead of %u queues", man().device( 0 ).queueCount(), queues );
            }
            if ( man().deviceCount() > man().supportedDeviceCount() )
                sim_fail( "wrong-result", "%u devices of %u have been opened", man().deviceCount(), man().supportedDeviceCount() );
            if ( sim_choose( 2 ) )
                mustWork( "closing the devices", [] { man().closeDevices(); } );
        }
        openAll();
        stepFunction();
    }

    void failBroken( const ClConfig & k )
    {
        uint32_t good = 0;
        const int n = k.devices[0] + k.devices[1];
        for ( int i = 0; i < n; ++i )
            good += !k.dev[i].broken;
        openAll();
        if ( man().supportedDeviceCount() != good || man().deviceCount() != good )
            sim_fail( "wrong-result", "%u devices of %u which can be used are found, %u are open", man().supportedDeviceCount(), good, man().deviceCount() );
        for ( uint32_t i = 0; i < good; ++i ) {
            mustWork( "setActiveDevice", [&] { man().setActiveDevice( i ); } );
            stepFunction();
        }
        mustWork( "setActiveDevice", [&] {
            if ( good )
                man().setActiveDevice( 0 );
        } );
    }

    void failTransfer()
    {
        ops::RImg r;
        const uint32_t cc = ops::colours3();
        r.make( ops::side( 20 ), ops::side( 12 ), cc, ops::alignmentChoice() );
        ops::paint( r, sim_choose( 1u << 30 ), sim_choose( 6 ) );
        const uint32_t tries = 1 + sim_choose( 3 );
        const uint8_t al = uint8_t( ops::alignmentChoice() );
        Image h;
        ops::Live::load( h, r );
        std::string why;
        for ( uint32_t t = 0; t <= tries; ++t ) {
            const bool down = sim_choose( 2 ), newImage = sim_choose( 2 );
            Image dev, back;
            {
                SimSut sut;
                if ( down )
                    devImage( dev, r );
                else if ( !newImage )
                    dev = ImageOpenCL( r.w, r.h, uint8_t( cc ), al );
                if ( down && !newImage )
                    back = Image( r.w, r.h, uint8_t( cc ), al );
            }
            if ( t < tries )
                arm( true, false );
            const Outcome o = attempt( [&] {
                if ( down ) {
                    if ( newImage )
                        back = Image_Function_OpenCL::ConvertFromOpenCL( dev );
                    else
                        Image_Function_OpenCL::ConvertFromOpenCL( dev, back );
                }
                else {
                    if ( newImage )
                        dev = Image_Function_OpenCL::ConvertToOpenCL( h );
                    else
                        Image_Function_OpenCL::ConvertToOpenCL( h, dev );
                }
            } );
            judge( o, disarm(), "a transfer" );
            if ( !o.thrown ) {
                if ( !down )
                    hostCopy( dev, back );
                samePixels( back, r, down ? "a transfer from a device" : "a transfer to a device" );
            }
            if ( !ops::bufferEquals( h, r, why ) )
                bad( "input-changed", "a transfer to a device changes its input: " + why );
            if ( down ) {
                hostCopy( dev, back );
                if ( !ops::bufferEquals( back, r, why ) )
                    bad( "input-changed", "a transfer from a device changes its input: " + why );
            }
            SimSut sut;
            dev = Image();
            back = Image();
        }
    }

    void failImages()
    {
        ops::RImg r, q;
        const uint32_t cc = ops::colours3();
        r.make( ops::side( 12 ), ops::side( 12 ), cc, ops::alignmentChoice() );
        ops::paint( r, sim_choose( 1u << 30 ), 1 );
        q.make( ops::side( 12 ), ops::side( 12 ), 1, 1 );
        ops::paint( q, sim_choose( 1u << 30 ), 1 );
        const uint32_t tries = 1 + sim_choose( 3 );
        Image a, b;
        {
            SimSut sut;
            devImage( a, r );
        }
        std::string why;
        for ( uint32_t t = 0; t <= tries; ++t ) {
            const uint32_t what = sim_choose( 5 );
            const uint8_t v = uint8_t( sim_choose( 256 ) );
            {
                SimSut sut;
                if ( what == 1 || what == 2 )
                    devImage( b, q );
            }
            if ( t < tries )
                arm( true, false );
            ops::RImg e = r;
            const Outcome o = attempt( [&] {
                switch ( what ) {
                case 0:
                    b = ImageOpenCL( r.w, r.h, uint8_t( cc ), uint8_t( r.al ) );
                    break;
                case 1:
                    b = a;
                    break;
                case 2:
                    b.resize( r.w + 1, r.h );
                    break;
                case 3: {
                    Image c( a );
                    b.swap( c );
                    break;
                }
                default:
                    b = a.generate( r.w, r.h, uint8_t( cc ), uint8_t( r.al ) );
                    b.fill( v );
                    std::fill( e.d.begin(), e.d.end(), v );
                }
            } );
            judge( o, disarm(), "an operation with a device image" );
            Image h;
            if ( !o.thrown && ( what == 1 || what >= 3 ) ) {
                hostCopy( b, h );
                if ( !ops::bufferEquals( h, e, why ) )
                    bad( "image-content", "an image: " + why );
            }
            if ( !o.thrown && what == 2 && ( b.width() != r.w + 1 || b.height() != r.h ) && !( q.w == r.w + 1 && q.h == r.h ) )
                sim_fail( "image-geometry", "a resized image has another size" );
            if ( o.thrown && b.type() == ImageOpenCL().type() )
                hostCopy( b, h ); // consistent
            hostCopy( a, h );
            if ( !ops::bufferEquals( h, r, why ) )
                bad( "image-content", "an image which was not involved in a failed operation: " + why );
            SimSut sut;
            if ( sim_choose( 2 ) )
                b = Image();
        }
        SimSut sut;
        a = Image();
        b = Image();
    }

    template <typename T>
    void failValues()
    {
        std::vector<T> v( 1 + sim_choose( 30 ) ), u( 1 + sim_choose( 30 ) ), r;
        for ( T & x : v )
            x = value<T>();
        for ( T & x : u )
            x = value<T>();
        const T one = value<T>();
        const uint32_t tries = 1 + sim_choose( 3 );
        std::unique_ptr<multiCL::Array<T>> kept;
        for ( uint32_t t = 0; t <= tries; ++t ) {
            const uint32_t what = sim_choose( 4 );
            T g{};
            size_t s = 0;
            r.clear();
            if ( t < tries )
                arm( true, false );
            Outcome o = attempt( [&] {
                switch ( what ) {
                case 0:
                    kept.reset( new multiCL::Array<T>( v ) );
                    r = kept->get();
                    break;
                case 1:
                    if ( !kept )
                        kept.reset( new multiCL::Array<T>( u ) );
                    *kept = v;
                    r = kept->get();
                    break;
                case 2: {
                    multiCL::Type<T> x( one );
                    g = x.get();
                    break;
                }
                default:
                    if ( !kept )
                        kept.reset( new multiCL::Array<T> );
                    kept->resize( u.size() );
                    s = kept->size();
                    *kept = v;
                    r = kept->get();
                }
            } );
            judge( o, disarm(), "multiCL::Array or multiCL::Type" );
            if ( !o.thrown && ( what == 2 ? !( g == one ) : !( r == v ) ) )
                sim_fail( "array", "values in device memory are not kept" );
            if ( !o.thrown && what == 3 && s != u.size() )
                sim_fail( "array", "an array has %zu values instead of %zu", s, u.size() );
            if ( kept && kept->empty() != ( kept->size() == 0 ) )
                sim_fail( "array", "an array of %zu values %s empty", kept->size(), kept->empty() ? "is" : "is not" );
            if ( kept && kept->size() && cl_mem_size( kept->data() ) < kept->size() * sizeof( T ) )
                sim_fail( "array", "an array of %zu values has %zu bytes", kept->size(), cl_mem_size( kept->data() ) );
        }
        mustWork( "multiCL::Array after a failure", [&] {
            if ( !kept )
                kept.reset( new multiCL::Array<T> );
            kept->resize( u.size() );
            *kept = u;
            r = kept->get();
        } );
        if ( !( r == u ) )
            sim_fail( "array", "values in device memory are not kept after a failure" );
        SimSut sut;
        kept.reset();
    }

    void failPrograms()
    {
        const uint32_t tries = 1 + sim_choose( 3 );
        const uint32_t dim = 1 + sim_choose( 3 );
        const uint32_t w = 1 + sim_choose( 12 ), h = 1 + sim_choose( 6 ), d = 1 + sim_choose( 3 );
        const bool file = sim_choose( 3 ) == 0;
        if ( file ) {
            SimRt rt;
            sim_disk_put( "/user.cl", USER, strlen( USER ) );
        }
        for ( uint32_t t = 0; t <= tries; ++t ) {
            std::vector<uint32_t> got;
            const bool broken = sim_choose( 4 ) == 0;
            bool built = false;
            if ( t < tries ) {
                arm( true, true );
                if ( file && sim_choose( 2 ) ) {
                    SimRt rt;
                    DiskFaults f;
                    f.failAt = 1 + sim_choose( 10 );
                    f.shortOneIn = sim_choose( 2 ) ? 3 : 0;
                    sim_disk_faults( f );
                }
            }
            const Outcome o = attempt( [&] {
                if ( broken ) {
                    multiCL::OpenCLProgram p( man().device().context(), BROKEN );
                    built = true;
                }
                else if ( file ) {
                    const multiCL::OpenCLProgram p = multiCL::CreateProgramFromFile( "/user.cl" );
                    built = true;
                    runTouch( p, dim, w, h, d, got );
                }
                else {
                    multiCL::OpenCLProgram p( man().device().context(), USER );
                    built = true;
                    runTouch( p, dim, w, h, d, got );
                }
            } );
            bool failed = disarm();
            {
                SimRt rt;
                failed = failed || sim_disk_failed() != 0;
                sim_disk_no_faults();
            }
            if ( broken ) {
                if ( built )
                    sim_fail( "silent-failure", "a program which cannot be compiled is accepted" );
                sim_count( "probe.broken-program", 1 );
                continue;
            }
            judge( o, failed, "a program of a user" );
            if ( !o.thrown )
                checkTouch( dim, w, h, d, got );
        }
    }

    void failDevice()
    {
        // queues, information, reservation of memory
        const uint32_t tries = 1 + sim_choose( 4 );
        std::string name, version;
        uint64_t total = 0;
        mustWork( "information about a device", [&] {
            name = man().device().name();
            version = man().device().computeCapability();
            total = man().device().totalMemorySize();
        } );
        for ( uint32_t t = 0; t <= tries; ++t ) {
            const uint32_t what = sim_choose( 4 );
            const size_t had = man().device().queueCount();
            const uint32_t q = 1 + sim_choose( 5 );
            const size_t n = 1 + sim_choose( 30000 );
            const bool faults = t < tries;
            if ( faults )
                arm( what != 0, false );
            std::string n2, v2;
            uint64_t t2 = 0;
            const Outcome o = attempt( [&] {
                switch ( what ) {
                case 0:
                    man().device().synchronize();
                    break;
                case 1:
                    man().device().setQueueCount( q );
                    break;
                case 2:
                    n2 = man().device().name();
                    v2 = man().device().computeCapability();
                    t2 = man().device().totalMemorySize();
                    break;
                default:
                    multiCL::MemoryManager::memory().reserve( n );
                }
            } );
            const bool failed = disarm();
            judge( o, failed, "an operation with a device" );
            if ( what == 0 && failed && !o.thrown )
                sim_fail( "silent-failure", "a failed synchronisation is reported as a success" );
            if ( what == 2 && !o.thrown && ( n2 != name || v2 != version || t2 != total ) )
                sim_fail( "wrong-result", "the information about a device has changed" );
            const size_t has = man().device().queueCount();
            if ( what == 1 && ( o.thrown ? ( has < had && has != q ) || has > ( q > had ? q : had ) || has == 0 : has != q ) )
                sim_fail( "wrong-result", "%zu queues after a change of %zu to %u", has, had, q );
            if ( what == 3 && sim_choose( 2 ) )
                stepFunction();
        }
        stepFunction();
    }

    // memory reserved on a device is neither lost nor given out twice whatever has failed
    void failMemory()
    {
        struct Piece
        {
            cl_mem p;
            size_t n;
            uint8_t v;
        };
        const size_t size = size_t( 8192 ) << sim_choose( 4 ); // blocks have at least 4096 bytes
        mustWork( "reserving device memory", [&] { multiCL::MemoryManager::memory().reserve( size ); } );
        const uint64_t used = cl_device_used( 0 );
        std::vector<Piece> all;
        all.reserve( 64 );
        const uint32_t steps = 3 + sim_choose( 20 );
        arm( true, false );
        auto check = [&]( const Piece & x ) {
            uint8_t v[4096];
            const size_t n = x.n < sizeof v ? x.n : sizeof v;
            cl_peek( x.p, v, n );
            for ( size_t k = 0; k < n; ++k )
                if ( v[k] != x.v )
                    sim_fail( "memory-content", "allocated device memory is changed by another allocation" );
        };
        for ( uint32_t s = 0; s < steps; ++s ) {
            if ( all.empty() || sim_choose( 5 ) > 1 ) {
                Piece x{ nullptr, 1 + sim_choose( sim_choose( 2 ) ? uint32_t( size / 16 ) : uint32_t( size * 3 / 4 ) ), uint8_t( 1 + s ) };
                const Outcome o = attempt( [&] { x.p = multiCL::MemoryManager::memory().allocate<uint8_t>( x.n ); } );
                if ( o.thrown ) {
                    if ( cl_failed() == g_clBefore && sim_alloc_failed() == g_memBefore )
                        bad( "unexpected-exception", "allocation of device memory fails: " + o.what );
                    sim_count( "probe.failed-call", 1 );
                    continue;
                }
                if ( cl_mem_size( x.p ) < x.n )
                    sim_fail( "device-memory", "%zu bytes are allocated instead of %zu", cl_mem_size( x.p ), x.n );
                SimRt rt;
                const std::vector<uint8_t> v( x.n, x.v );
                cl_poke( x.p, v.data(), v.size() );
                all.push_back( x );
            }
            else {
                const uint32_t i = sim_choose( uint32_t( all.size() ) );
                const Piece x = all[i];
                check( x );
                const uint64_t before = cl_failed();
                const Outcome o = attempt( [&] { multiCL::MemoryManager::memory().free( x.p ); } );
                if ( o.thrown && cl_failed() == before )
                    bad( "unexpected-exception", "release of device memory fails: " + o.what );
                all.erase( all.begin() + i );
            }
        }
        disarm();
        for ( const Piece & x : all ) {
            check( x );
            mustWork( "freeing device memory", [&] { multiCL::MemoryManager::memory().free( x.p ); } );
        }
        const uint64_t rest = cl_device_used( 0 );
        if ( cl_failed() == 0 && rest != used )
            sim_fail( "device-memory", "%llu bytes of a device are not released", (unsigned long long)( rest - used ) );
        // everything is free so both halves of the reserved memory can be given out again
        cl_mem half[2] = { nullptr, nullptr };
        for ( cl_mem & h : half )
            mustWork( "allocation of device memory", [&] { h = multiCL::MemoryManager::memory().allocate<uint8_t>( size / 2 ); } );
        if ( cl_device_used( 0 ) != rest )
            sim_fail( "device-memory", "%zu reserved bytes are all free but two blocks of %zu bytes do not fit into them", size, size / 2 );
        for ( cl_mem h : half )
            mustWork( "freeing device memory", [&] { multiCL::MemoryManager::memory().free( h ); } );
        sim_count( "probe.reserved-memory", 1 );
    }

    void failures()
    {
        ClConfig k = config( 3 );
        const uint32_t mode = sim_choose( 13 );
        if ( mode == 0 ) {
            const int n = k.devices[0] + k.devices[1];
            for ( int i = 0; i < n; ++i )
                k.dev[i].broken = sim_choose( 2 ) != 0;
        }
        cl_begin( k );
        atexit( cl_check_released );
        if ( mode == 0 )
            failBroken( k );
        else if ( mode <= 2 )
            failOpen();
        else {
            openAll();
            switch ( mode ) {
            case 3:
                failTransfer();
                break;
            case 4:
                failImages();
                break;
            case 5:
                if ( sim_choose( 2 ) )
                    failValues<uint32_t>();
                else
                    failValues<Wide>();
                break;
            case 6:
                failPrograms();
                break;
            case 12:
                failMemory();
                break;
            case 7:
                failDevice();
                break;
            default:
                failFunction();
            }
        }
        sim_exit_normally();
    }


    // --- C21
    struct Kept
    {
        Image img;
        ops::RImg r;
        int device = 0;
        uint32_t generation = 0;
    };

    struct World
    {
        int n = 0;
        bool open[4] = {};
        uint32_t generation[4] = {};
        uint32_t active = 0;
        std::vector<std::unique_ptr<Kept>> kept;

        uint32_t count() const
        {
            uint32_t c = 0;
            for ( int i = 0; i < n; ++i )
                c += open[i];
            return c;
        }
        bool usable() const
        {
            return open[active];
        }
    };

    void expect( const Outcome & o, bool works, const char * what, uint32_t device )
    {
        if ( o.thrown && works )
            bad( "unexpected-exception", std::string( what ) + " of device " + std::to_string( device ) + " fails: " + o.what );
        if ( !o.thrown && !works )
            bad( "silent-failure", std::string( what ) + " of device " + std::to_string( device ) + " which cannot be used succeeds" );
    }

    void onDevice( const Image & i, uint32_t device, const char * what )
    {
        if ( !i.empty() && cl_mem_device( i.data() ) != int( device ) )
            sim_fail( "wrong-device", "%s is on device %d instead of %u", what, cl_mem_device( i.data() ), device );
    }

    void checkKept( Kept & k, const char * what )
    {
        Image h;
        std::string why;
        hostCopy( k.img, h );
        if ( !ops::bufferEquals( h, k.r, why ) )
            bad( "image-content", std::string( what ) + ": " + why );
        onDevice( k.img, uint32_t( k.device ), what );
    }

    void callOnActive( World & w, const char * what )
    {
        Call x;
        x.gen( FN[sim_choose( FNS )], limits() );
        x.build();
        for ( int i = 0; i < x.c.nin; ++i )
            onDevice( x.d.in[i], w.active, "an image" );
        x.call();
        x.check( what );
        if ( x.c.retImg && !x.thrown )
            onDevice( x.d.img, w.active, "a result" );
        x.release();
    }

    void useKept( World & w, Kept & k )
    {
        const bool home = w.usable() && uint32_t( k.device ) == w.active && k.generation == w.generation[k.device];
        Image out;
        const uint32_t what = sim_choose( 4 );
        std::vector<uint32_t> profile;
        Image host;
        const Outcome o = attempt( [&] {
            switch ( what ) {
            case 0:
                out = Image_Function_OpenCL::Invert( k.img );
                break;
            case 1: {
                Image copy( k.img );
                out.swap( copy );
                break;
            }
            case 2:
                host = Image_Function_OpenCL::ConvertFromOpenCL( k.img );
                break;
            default:
                profile = Image_Function_OpenCL::ProjectionProfile( k.img, false );
            }
        } );
        if ( o.thrown && home )
            bad( "unexpected-exception", "an image cannot be used on its device: " + o.what );
        if ( !o.thrown ) {
            ops::RImg e = k.r;
            std::string why;
            Image h;
            if ( what <= 1 )
                hostCopy( out, h );
            if ( what == 0 )
                for ( uint32_t y = 0; y < e.h; ++y )
                    for ( uint32_t x = 0; x < e.w * e.cc; ++x )
                        e.d[size_t( y ) * e.rs + x] = uint8_t( ~e.d[size_t( y ) * e.rs + x] );
            if ( what <= 1 && !ops::pixelsEqual( h, e, why ) )
                bad( "wrong-result", "an image which was created before: " + why );
            if ( what == 2 && !ops::pixelsEqual( host, e, why ) )
                bad( "wrong-result", "an image which was created before: " + why );
            if ( what == 3 )
                for ( uint32_t y = 0; y < e.h; ++y ) {
                    uint32_t sum = 0;
                    for ( uint32_t x = 0; x < e.w * e.cc; ++x )
                        sum += e.d[size_t( y ) * e.rs + x];
                    if ( profile.size() != e.h || profile[y] != sum )
                        sim_fail( "wrong-result", "a projection profile of an image which was created before" );
                }
            if ( home && what <= 1 )
                onDevice( out, w.active, "a result" );
            sim_count( home ? "probe.image-at-home" : "probe.image-abroad", 1 );
        }
        else
            sim_count( "probe.image-refused", 1 );
        checkKept( k, "an image which has been used" );
        SimSut sut;
        out = Image();
    }

    void history( World & w )
    {
        const uint32_t steps = 3 + sim_choose( 12 );
        for ( uint32_t s = 0; s < steps; ++s ) {
            const uint32_t d = sim_choose( sim_choose( 8 ) ? uint32_t( w.n ) : uint32_t( w.n ) + 2 );
            const bool valid = d < uint32_t( w.n );
            switch ( sim_choose( 16 ) ) {
            case 0:
            case 1: {
                const Outcome o = attempt( [&] { man().initializeDevice( d ); } );
                expect( o, valid, "initializeDevice", d );
                if ( valid && !w.open[d] ) {
                    w.open[d] = true;
                    ++w.generation[d];
                }
                break;
            }
            case 2: {
                const Outcome o = attempt( [&] { man().closeDevice( d ); } );
                expect( o, valid, "closeDevice", d );
                if ( valid )
                    w.open[d] = false;
                break;
            }
            case 3:
                if ( sim_choose( 3 ) == 0 ) {
                    mustWork( "closing the devices", [] { man().closeDevices(); } );
                    std::fill( w.open, w.open + 4, false );
                }
                else if ( sim_choose( 2 ) ) {
                    mustWork( "resetSupportedDevice", [] { man().resetSupportedDevice(); } );
                    std::fill( w.open, w.open + 4, false );
                }
                else {
                    mustWork( "opening the devices", [] { man().initializeDevices(); } );
                    for ( int i = 0; i < w.n; ++i )
                        if ( !w.open[i] ) {
                            w.open[i] = true;
                            ++w.generation[i];
                        }
                }
                break;
            case 4:
            case 5: {
                const Outcome o = attempt( [&] { man().setActiveDevice( d ); } );
                expect( o, valid && w.open[d], "setActiveDevice", d );
                if ( !o.thrown )
                    w.active = d;
                break;
            }
            case 6:
            case 7:
            case 8:
                if ( w.kept.size() < 4 ) {
                    std::unique_ptr<Kept> k( new Kept );
                    k->r.make( ops::side( 10 ), ops::side( 10 ), ops::colours3(), ops::alignmentChoice() );
                    ops::paint( k->r, sim_choose( 1u << 30 ), 1 );
                    const Outcome o = attempt( [&] { devImage( k->img, k->r ); } );
                    expect( o, w.usable(), "creating an image", w.active );
                    if ( !o.thrown ) {
                        k->device = int( w.active );
                        k->generation = w.generation[w.active];
                        onDevice( k->img, w.active, "an image" );
                        w.kept.push_back( std::move( k ) );
                    }
                }
                break;
            case 9:
                if ( !w.kept.empty() ) {
                    SimSut sut;
                    w.kept.erase( w.kept.begin() + sim_choose( uint32_t( w.kept.size() ) ) );
                }
                break;
            case 10:
            case 11:
                if ( w.usable() )
                    callOnActive( w, "" );
                else {
                    const Outcome o = attempt( [&] {
                        Image i = ImageOpenCL( 3, 3 );
                        Image_Function_OpenCL::Invert( i );
                    } );
                    expect( o, false, "a function", w.active );
                }
                break;
            case 12:
            case 13:
                if ( !w.kept.empty() )
                    useKept( w, *w.kept[sim_choose( uint32_t( w.kept.size() ) )] );
                break;
            case 14: {
                uint64_t size = 0;
                size_t queues = 0;
                const uint32_t q = 1 + sim_choose( 4 ), cur = sim_choose( 5 );
                const Outcome o = attempt( [&] {
                    multiCL::OpenCLDevice & x = man().device( d );
                    size = x.totalMemorySize();
                    x.setQueueCount( q );
                    x.setCurrentQueueId( cur );
                    x.synchronize();
                    queues = x.queueCount();
                } );
                expect( o, valid && w.open[d], "device", d );
                if ( !o.thrown && ( queues != q || size == 0 ) )
                    sim_fail( "wrong-result", "%zu queues instead of %u", queues, q );
                break;
            }
            default: {
                bool live = false;
                for ( auto & k : w.kept )
                    live = live || uint32_t( k->device ) == d;
                if ( !live ) {
                    const Outcome o = attempt( [&] { multiCL::MemoryManager::memory( d ).reserve( 1 + ( size_t( s ) + 3 ) * 5000 ); } );
                    expect( o, valid && w.open[d], "reservation of memory", d );
                }
            }
            }
            if ( man().deviceCount() != w.count() || man().supportedDeviceCount() != uint32_t( w.n ) )
                sim_fail( "wrong-result", "%u devices of %u are open instead of %u of %d", man().deviceCount(), man().supportedDeviceCount(), w.count(), w.n );
        }
        for ( auto & k : w.kept )
            checkKept( *k, "an image" );
        // images are destroyed whatever device is active, open or closed
        SimSut sut;
        w.kept.clear();
    }

    void crowd( World & w )
    {
        // phases of work of several threads between changes of devices
        const uint32_t phases = 1 + sim_choose( 2 );
        for ( uint32_t p = 0; p < phases; ++p ) {
            mustWork( "opening the devices", [] { man().initializeDevices(); } );
            mustWork( "setActiveDevice", [&] { man().setActiveDevice( w.active ); } );
            if ( sim_choose( 2 ) )
                for ( int i = 0; i < w.n; ++i )
                    reservePool( uint32_t( i ) );
            struct Plan
            {
                bool set = false;
                uint32_t device = 0, second = 0;
                std::vector<Call> calls;
                bool values = false, fill = false;
            };
            const uint32_t n = 2 + sim_choose( 2 );
            std::vector<Plan> plan( n );
            const bool same = sim_choose( 2 ) == 0;
            for ( Plan & x : plan ) {
                x.device = x.second = same ? 0 : sim_choose( uint32_t( w.n ) );
                x.set = x.device != 0 || sim_choose( 2 );
                if ( sim_choose( 4 ) == 0 )
                    x.second = sim_choose( uint32_t( w.n ) );
                x.values = sim_choose( 4 ) == 0;
                x.fill = sim_choose( 3 ) == 0;
                x.calls.resize( 1 + sim_choose( 2 ) );
                for ( Call & c : x.calls ) {
                    ops::Limits lim;
                    lim.maxBytes = 100;
                    lim.maxSide = 10;
                    c.gen( FN[sim_choose( FNS )], lim );
                }
            }
            std::vector<std::thread> threads;
            for ( uint32_t t = 0; t < n; ++t )
                threads.emplace_back( [&plan, t] {
                    Plan & x = plan[t];
                    uint32_t now = x.device;
                    if ( x.set )
                        mustWork( "setActiveDevice", [&] { man().setActiveDevice( x.device ); } );
                    for ( size_t j = 0; j < x.calls.size(); ++j ) {
                        Call & c = x.calls[j];
                        if ( j == 1 && x.second != now ) {
                            now = x.second;
                            mustWork( "setActiveDevice", [&] { man().setActiveDevice( now ); } );
                        }
                        c.build();
                        for ( int i = 0; i < c.c.nin; ++i )
                            onDevice( c.d.in[i], now, "an image of a thread" );
                        c.call();
                        c.check( "next to other threads: " );
                        c.release();
                    }
                    if ( x.fill ) {
                        Image i;
                        mustWork( "fill of a device image", [&] {
                            i = ImageOpenCL( 7, 5, 1, 4 );
                            i.fill( uint8_t( 17 + t ) );
                        } );
                        Image h;
                        hostCopy( i, h );
                        const size_t n = size_t( h.rowSize() ) * h.height();
                        sim_read( h.data(), n );
                        for ( size_t k = 0; k < n; ++k )
                            if ( h.data()[k] != 17 + t )
                                sim_fail( "image-content", "an image of a thread was filled with another value" );
                        SimSut sut;
                        i = Image();
                    }
                    if ( x.values ) {
                        std::vector<uint32_t> v( 5, 1000 + t ), r;
                        mustWork( "multiCL::Array", [&] {
                            multiCL::Array<uint32_t> a( v );
                            r = a.get();
                        } );
                        if ( r != v )
                            sim_fail( "array", "an array of a thread does not keep its values" );
                    }
                } );
            for ( std::thread & x : threads )
                x.join();
            callOnActive( w, "after the threads: " );
            if ( sim_choose( 2 ) ) {
                const uint32_t d = sim_choose( uint32_t( w.n ) );
                mustWork( "closing a device", [&] { man().closeDevice( d ); } );
            }
            else
                mustWork( "closing the devices", [] { man().closeDevices(); } );
        }
    }

    void devices()
    {
        World w;
        const bool threads = sim_choose( 2 ) == 0;
        const ClConfig k = config( 4 );
        w.n = k.devices[0] + k.devices[1];
        cl_begin( k );
        atexit( cl_check_released );
        multiCL::enableDeviceSupport( true, true );
        mustWork( "resetSupportedDevice", [] { man().resetSupportedDevice(); } );
        if ( threads ) {
            w.active = sim_choose( uint32_t( w.n ) );
            crowd( w );
        }
        else
            history( w );
        sim_exit_normally();
    }

    // --- C22
    struct Mixed // a generic function with images of the host and of a device
    {
        ops::Case c;
        ops::Live d;
        bool in[3] = {}, out[3] = {}; // on the device
        bool thrown = false;
        std::string what;

        void gen()
        {
            ops::generate( c, int( sim_choose( uint32_t( ops::GetThreshold ) ) ), limits() );
            for ( int i = 0; i < 3; ++i ) {
                in[i] = sim_choose( 2 );
                out[i] = sim_choose( 2 );
            }
        }
        bool first() const
        {
            return c.nin ? in[0] : out[0];
        }
        std::string text() const
        {
            char b[200];
            snprintf( b, sizeof b, "penguinV::%s (form %d, %ux%u, %u colours%s, inputs on the device: %d %d %d, outputs: %d %d %d)", ops::name( c.fn ), c.form, c.w, c.h,
                      c.nin ? c.in[0].cc : c.out[0].cc, c.inPlace ? ", in place" : "", in[0], in[1], in[2], out[0], out[1], out[2] );
            return b;
        }
        static void load( Image & i, const ops::RImg & r, bool device )
        {
            if ( device )
                devImage( i, r );
            else
                ops::Live::load( i, r );
        }
        void build()
        {
            SimSut sut;
            d = ops::Live();
            for ( int i = 0; i < c.nin; ++i )
                load( d.in[i], c.in[i], in[i] );
            if ( !c.inPlace )
                for ( int i = 0; i < c.nout; ++i )
                    load( d.out[i], c.out[i], out[i] );
            d.vec = c.vec0;
        }
        void call()
        {
            const Outcome o = attempt( [this] { generic::exec( c, d ); } );
            thrown = o.thrown;
            SimRt rt;
            what = o.what;
        }
        void down( Image & i, Image & h, bool device, const char * name )
        {
            if ( i.type() != ( device ? ImageOpenCL().type() : Image().type() ) )
                bad( "image-type", std::string( name ) + " of " + text() + " is of another type" );
            if ( device )
                hostCopy( i, h );
            else
                h.swap( i );
        }
        void check( const char * context, bool mayThrow )
        {
            ops::Live h;
            std::string why;
            for ( int i = 0; i < c.nin; ++i )
                down( d.in[i], h.in[i], in[i], "an input" );
            if ( !c.inPlace )
                for ( int i = 0; i < c.nout; ++i )
                    down( d.out[i], h.out[i], out[i], "an output" );
            if ( c.retImg && !thrown )
                down( d.img, h.img, first(), "the result" );
            {
                SimRt rt;
                h.vec = d.vec;
                h.num = d.num;
            }
            if ( !ops::inputsIntact( c, h, why ) )
                bad( "input-changed", context + text() + ": " + why );
            if ( thrown ) {
                const bool unsupported = first() && onlyGray( c ) && ( ( c.nin && c.in[0].cc != 1 ) || ( c.nout && c.out[0].cc != 1 ) );
                if ( !mayThrow && !unsupported )
                    bad( "unexpected-exception", context + text() + ": " + what );
                if ( !ops::outsideIntact( c, h, why ) )
                    bad( "failed-call-damage", context + text() + ": " + why );
            }
            else {
                if ( !ops::resultsExact( c, h, why ) )
                    bad( "wrong-result", context + text() + ": " + why );
                sim_count( "probe.checked-call", 1 );
            }
            SimSut sut;
            d = ops::Live();
        }
    };

    void mixed()
    {
        const ClConfig k = config( 1 );
        cl_begin( k );
        atexit( cl_check_released );
        openAll();
        ImageTypeManager::instance().enableIntertypeConversion( true );
        const uint32_t n = sim_choose( 5 ) == 0 ? 2 : 1;
        if ( n > 1 ) {
            std::vector<Mixed> work( n * 2 );
            for ( Mixed & m : work )
                m.gen();
            std::vector<std::thread> threads;
            for ( uint32_t t = 0; t < n; ++t )
                threads.emplace_back( [&work, t] {
                    for ( uint32_t j = 0; j < 2; ++j ) {
                        Mixed & m = work[t * 2 + j];
                        m.build();
                        m.call();
                        m.check( "next to another thread: ", false );
                    }
                } );
            for ( std::thread & x : threads )
                x.join();
            sim_exit_normally();
        }
        Mixed m;
        m.gen();
        m.build();
        m.call();
        m.check( "", false );
        const uint64_t serial = sim_alloc_serial();
        const uint32_t tries = sim_choose( 4 );
        for ( uint32_t t = 0; t < tries; ++t ) {
            m.build();
            arm( true, true );
            m.call();
            const bool failed = disarm();
            if ( failed && m.thrown )
                sim_count( "probe.failed-call", 1 );
            m.check( failed ? "with a failure: " : "", failed );
        }
        m.build();
        m.call();
        m.check( "after failed calls: ", false );
        if ( tries ) {
            SimRt rt;
            char b[400];
            if ( sim_live_blocks( serial, b, sizeof b ) != 0 )
                sim_fail( "leak", "calls of %s leak:%s", m.text().c_str(), b );
        }
        sim_exit_normally();
    }

    // --- objects which exist as long as the process
    typedef multiCL::Type<uint32_t> Value;
    typedef multiCL::Array<uint32_t> Values;
    life::Place<ImageOpenCL> lifeImage[3];
    life::Place<Value> lifeValue[2];
    life::Place<Values> lifeArray[2];

    bool g_unloaded = false;
    void lifetimeEnd()
    {
        if ( !g_unloaded )
            cl_check_released();
    }

    void lifetime()
    {
        const ClConfig k = config( 3 );
        cl_begin( k );
        sim_at_end( lifetimeEnd );
        bool open = false;
        auto tryIt = [&]( const std::function<void()> & f ) {
            const Outcome o = attempt( f );
            if ( o.thrown ) {
                SimRt rt;
                sim_fail( "unexpected-exception", "%s", o.what.c_str() );
            }
        };
        const uint32_t steps = 2 + sim_choose( 10 );
        for ( uint32_t s = 0; s < steps; ++s ) {
            const uint32_t i = sim_choose( 3 );
            switch ( sim_choose( 9 ) ) {
            case 0:
            case 1:
                life::make( lifeImage[i] );
                break;
            case 2:
                if ( open && i < 2 )
                    tryIt( [&] { life::make( lifeValue[i] ); } );
                break;
            case 3:
                if ( open && i < 2 )
                    tryIt( [&] { life::make( lifeArray[i], size_t( 5 ) ); } );
                break;
            case 4:
            case 5:
                if ( !open ) {
                    openAll();
                    open = true;
                }
                break;
            case 6:
                if ( open ) {
                    const uint32_t d = sim_choose( man().deviceCount() );
                    tryIt( [&] { man().setActiveDevice( d ); } );
                }
                break;
            case 7:
                if ( open ) {
                    const size_t n = size_t( 1024 ) << sim_choose( 8 );
                    try {
                        SimSut sut;
                        multiCL::MemoryManager::memory().reserve( n );
                        sim_count( "probe.reserve", 1 );
                    }
                    catch ( const std::logic_error & ) { // there are blocks in use
                    }
                }
                break;
            default:
                if ( open && lifeImage[i].have ) {
                    const uint32_t w = 1 + sim_choose( 12 ), h = 1 + sim_choose( 12 ), v = sim_choose( 256 ), how = sim_choose( 3 );
                    ImageOpenCL & image = *lifeImage[i].get();
                    tryIt( [&] {
                        if ( how == 0 ) {
                            ImageOpenCL t( w, h );
                            image = std::move( t );
                        }
                        else if ( how == 1 ) {
                            image.resize( w, h );
                            image.fill( uint8_t( v ) );
                        }
                        else
                            image.clear();
                    } );
                }
                break;
            }
        }
        if ( open && sim_choose( 4 ) == 3 )
            tryIt( [] { man().closeDevices(); } );
        if ( sim_choose( 6 ) == 5 ) { // the driver is unloaded before the end of the process
            g_unloaded = true;
            cl_lost_at( 1 );
            sim_count( "probe.unloaded-driver", 1 );
        }
        sim_exit_normally();
    }

    SimScenario s5( "cl_life", lifetime, warm );
    SimScenario s1( "cl_exact", exact, warm );
    SimScenario s2( "cl_failures", failures, warm );
    SimScenario s3( "cl_devices", devices, warm );
    SimScenario s4( "cl_types", mixed, warm );
}
