// Scenarios for the whole set of CPU library functions: re-entrancy (C10) and memory exhaustion (C14)
#include "rt.h"
#include "blob_detection.h"
#include "edge_detection.h"
#include "fft.h"
#include "filtering.h"
#include "image_function.h"
#include "image_function_simd.h"
#include "math/haar_transform.h"
#include "math/hough_transform.h"
#include "ops.h"
#include "penguinv/penguinv.h"
#include "penguinv_exception.h"
#include <new>
#include <thread>

namespace
{
    namespace Full
    {
#define NS Image_Function
#define OPS_BGR
#define OPS_SUM
#define OPS_RESIZE
#define OPS_MERGE
#define OPS_COPY
#define OPS_ACCUMULATE
#define OPS_SETPIXEL
#define OPS_GETPIXEL
#define OPS_GETTHRESHOLD
#define OPS_16BIT
#define OPS_EXTRA
#include "op_exec.inc"
#undef NS
#undef OPS_16BIT
#undef OPS_EXTRA
    }
    namespace Generic
    {
#define NS penguinV
#include "op_exec.inc"
#undef NS
#undef OPS_RESIZE
#undef OPS_MERGE
#undef OPS_COPY
#undef OPS_SETPIXEL
#undef OPS_GETPIXEL
#undef OPS_GETTHRESHOLD
    }
    namespace Simd
    {
#define NS Image_Function_Simd
#define OPS_SIMD
#define OPS_16BIT
#include "op_exec.inc"
#undef NS
    }

    bool inSimd( int fn )
    {
        switch ( fn ) {
        case ops::AbsoluteDifference:
        case ops::BitwiseAnd:
        case ops::BitwiseOr:
        case ops::BitwiseXor:
        case ops::Maximum:
        case ops::Minimum:
        case ops::Subtract:
        case ops::Invert:
        case ops::ConvertToRgb:
        case ops::Flip:
        case ops::Threshold1:
        case ops::Threshold2:
        case ops::ProjectionProfile:
        case ops::RgbToBgr:
        case ops::Sum:
        case ops::Accumulate:
        case ops::ConvertTo16Bit:
        case ops::ConvertTo8Bit:
            return true;
        }
        return false;
    }

    using Bytes = std::vector<uint8_t>;

    struct Out // what a call has produced
    {
        Bytes b;
        void raw( const void * p, size_t n )
        {
            const uint8_t * q = static_cast<const uint8_t *>( p );
            b.insert( b.end(), q, q + n );
        }
        void num( uint64_t v )
        {
            raw( &v, 8 );
        }
        void real( double v )
        {
            raw( &v, 8 );
        }
        template <typename T>
        void image( const penguinV::ImageTemplate<T> & i )
        {
            num( i.width() );
            num( i.height() );
            num( i.colorCount() );
            num( i.rowSize() );
            if ( !i.empty() )
                for ( uint32_t y = 0; y < i.height(); ++y )
                    raw( i.data() + size_t( y ) * i.rowSize(), size_t( i.width() ) * i.colorCount() * sizeof( T ) );
        }
        template <typename T>
        void points( const std::vector<PointBase2D<T>> & v )
        {
            num( v.size() );
            for ( const auto & p : v ) {
                real( double( p.x ) );
                real( double( p.y ) );
            }
        }
        void vec( const std::vector<uint32_t> & v )
        {
            num( v.size() );
            if ( !v.empty() )
                raw( v.data(), v.size() * 4 );
        }
    };

    enum Kind
    {
        K_FULL,
        K_GENERIC,
        K_SIMD,
        K_MEDIAN,
        K_PREWITT,
        K_SOBEL,
        K_GAUSS,
        K_EDGE,
        K_EDGEF,
        K_BLOB,
        K_FFT,
        K_HAAR,
        K_HAARF,
        K_HOUGH,
        K_HOUGHF,
        K_COUNT
    };
    const char * const kindName[] = { "Image_Function", "penguinV", "Image_Function_Simd", "Median", "Prewitt", "Sobel", "GetGaussianKernel", "EdgeDetection", "EdgeDetection(float)",
        "BlobDetection", "FFT", "Haar", "Haar(float)", "HoughTransform", "HoughTransform(float)" };

    using ComplexBase = FFT::BaseComplexData<kiss_fft_cpx>;
    // objects of a user which live longer than a call
    struct Objects
    {
        EdgeDetection edge;
        EdgeDetectionBase<float> edgeF;
        Blob_Detection::BlobDetection blob;
        std::unique_ptr<FFT::FFTExecutor> fft;
        FFT::ComplexData a, b;
        std::vector<float> gauss;
        std::vector<double> haarD;
        std::vector<float> haarF;
        std::vector<PointBase2D<double>> onD, offD;
        std::vector<PointBase2D<float>> onF, offF;
    };

    struct Call
    {
        int kind = 0;
        ops::Case c; // K_FULL, K_GENERIC, K_SIMD
        ops::RImg in, out0;
        uint32_t x = 0, y = 0, ox = 0, oy = 0, w = 0, h = 0;
        uint32_t form = 0, p[8] = {};
        uint32_t seed = 0;
        Bytes expected;
        bool known = false;

        std::string text() const
        {
            if ( kind <= K_SIMD )
                return std::string( kindName[kind] ) + "::" + c.text();
            char b[300];
            snprintf( b, sizeof b, "%s form %u, image %ux%u/%u, region %ux%u at %u,%u, parameters %u %u %u %u %u %u %u %u", kindName[kind], form + 1, in.w, in.h, in.al, w, h, x, y,
                      p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7] );
            return b;
        }

        void gen( int k, const ops::Limits & lim )
        {
            SimRt rt;
            kind = k;
            if ( kind <= K_SIMD ) {
                int fn;
                do
                    fn = int( sim_choose( kind == K_GENERIC ? uint32_t( ops::genEnd ) : uint32_t( ops::fullEnd ) ) );
                while ( kind == K_SIMD && !inSimd( fn ) );
                ops::generate( c, fn, lim );
                return;
            }
            seed = sim_choose( 1u << 16 );
            const uint32_t side = lim.maxBytes > 800 ? 28 : 14;
            in.make( 3 + sim_choose( side ), 3 + sim_choose( side ), 1, sim_choose( 3 ) ? 1 : 4 );
            ops::paint( in, seed, sim_choose( 6 ) );
            form = sim_choose( 4 );
            if ( form < 2 ) {
                w = in.w;
                h = in.h;
            }
            else {
                w = 3 + sim_choose( in.w - 2 );
                h = 3 + sim_choose( in.h - 2 );
                x = sim_choose( in.w - w + 1 );
                y = sim_choose( in.h - h + 1 );
            }
            if ( form == 3 ) {
                out0.make( w + sim_choose( 4 ), h + sim_choose( 4 ), 1, sim_choose( 2 ) ? 1 : 4 );
                ox = sim_choose( out0.w - w + 1 );
                oy = sim_choose( out0.h - h + 1 );
            }
            else
                out0.make( w, h, 1, sim_choose( 2 ) ? 1 : 4 );
            ops::paint( out0, seed + 1, 0 );
            switch ( kind ) {
            case K_MEDIAN:
                p[0] = 3 + 2 * sim_choose( 3 );
                break;
            case K_GAUSS:
                p[0] = 1 + sim_choose( 4 );
                p[1] = sim_choose( 40 );
                break;
            case K_EDGE:
            case K_EDGEF:
                p[0] = sim_choose( 4 );
                p[1] = sim_choose( 3 );
                p[2] = sim_choose( 3 );
                p[3] = 1 + sim_choose( 3 );
                p[4] = 1 + sim_choose( 3 );
                p[5] = sim_choose( 4 );
                p[6] = sim_choose( 4 );
                p[7] = 1 + sim_choose( 40 );
                break;
            case K_BLOB:
                p[0] = sim_choose( 64 ); // criteria
                p[1] = 1 + sim_choose( 250 );
                p[2] = sim_choose( 12 );
                p[3] = p[2] + sim_choose( 30 );
                p[4] = sim_choose( 7 );
                break;
            case K_FFT:
                p[0] = sim_choose( 4 );
                break;
            case K_HAAR:
            case K_HAARF:
                p[0] = sim_choose( 2 );
                break;
            case K_HOUGH:
            case K_HOUGHF:
                p[0] = 2 + sim_choose( 60 );
                p[1] = sim_choose( 180 );
                p[2] = 1 + sim_choose( 10 );
                p[3] = 1 + sim_choose( 10 );
                p[4] = 1 + sim_choose( 3 );
                break;
            }
        }
    };

    struct Inputs
    {
        ops::Live l;
        penguinV::Image in, out;
        std::vector<double> d;
        std::vector<float> f;
        std::vector<PointBase2D<double>> pd;
        std::vector<PointBase2D<float>> pf;
        bool thrown = false, outOfMemory = false;
        std::string what;
        const Inputs * shared = nullptr; // uses the input image of another caller

        void build( const Call & k )
        {
            if ( k.kind <= K_SIMD ) {
                l.build( k.c );
                return;
            }
            ops::Live::load( in, k.in );
            ops::Live::load( out, k.out0 );
            SimRt rt;
            ops::Rng r( k.seed + 99 );
            const uint32_t W = k.w / 2 * 2, H = k.h / 2 * 2;
            if ( k.kind == K_HAAR || k.kind == K_HAARF )
                for ( uint32_t i = 0; i < W * H; ++i ) {
                    d.push_back( double( r.below( 2000 ) ) / 7 );
                    f.push_back( float( d.back() ) );
                }
            if ( k.kind == K_HOUGH || k.kind == K_HOUGHF )
                for ( uint32_t i = 0; i < k.p[0]; ++i ) {
                    pd.push_back( PointBase2D<double>( double( r.below( 1000 ) ) / 10, i % 3 ? double( i ) : double( r.below( 1000 ) ) / 10 ) );
                    pf.push_back( PointBase2D<float>( float( pd.back().x ), float( pd.back().y ) ) );
                }
        }
        bool intact( const Call & k, std::string & why )
        {
            if ( k.kind <= K_SIMD )
                return ops::inputsIntact( k.c, l, why );
            if ( !ops::bufferEquals( in, k.in, why ) ) {
                why = "the input image was changed: " + why;
                return false;
            }
            return true;
        }
    };

    template <typename E>
    void edges( const Call & k, E & e, const penguinV::Image & in )
    {
        const uint32_t across = k.p[0] < 2 ? k.h : k.w;
        const EdgeParameter p( EdgeParameter::DirectionType( k.p[0] ), EdgeParameter::GradientType( k.p[1] ), EdgeParameter::EdgeType( k.p[2] ), k.p[3] > across ? across : k.p[3],
                               k.p[4], k.p[5], k.p[6], uint8_t( k.p[7] ) );
        if ( k.form < 2 )
            e.find( in, p );
        else
            e.find( in, k.x, k.y, k.w, k.h, p );
    }

    // the call itself; everything in here is code of the library
    void invoke( const Call & k, Inputs & i, Objects & o )
    {
        const penguinV::Image & in = i.shared ? i.shared->in : i.in;
        SimSut sut;
        switch ( k.kind ) {
        case K_FULL:
            Full::exec( k.c, i.l );
            break;
        case K_GENERIC:
            Generic::exec( k.c, i.l );
            break;
        case K_SIMD:
            Simd::exec( k.c, i.l );
            break;
        case K_MEDIAN:
            switch ( k.form ) {
            case 0:
                i.out = Image_Function::Median( in, k.p[0] );
                break;
            case 1:
                Image_Function::Median( in, i.out, k.p[0] );
                break;
            case 2:
                i.out = Image_Function::Median( in, k.x, k.y, k.w, k.h, k.p[0] );
                break;
            default:
                Image_Function::Median( in, k.x, k.y, i.out, k.ox, k.oy, k.w, k.h, k.p[0] );
            }
            break;
#define FILTER( F )                                                                                                                                  \
    switch ( k.form ) {                                                                                                                              \
    case 0:                                                                                                                                          \
        i.out = Image_Function::F( in );                                                                                                             \
        break;                                                                                                                                       \
    case 1:                                                                                                                                          \
        Image_Function::F( in, i.out );                                                                                                              \
        break;                                                                                                                                       \
    case 2:                                                                                                                                          \
        i.out = Image_Function::F( in, k.x, k.y, k.w, k.h );                                                                                         \
        break;                                                                                                                                       \
    default:                                                                                                                                         \
        Image_Function::F( in, k.x, k.y, i.out, k.ox, k.oy, k.w, k.h );                                                                              \
    }                                                                                                                                                \
    break;
        case K_PREWITT:
            FILTER( Prewitt )
        case K_SOBEL:
            FILTER( Sobel )
        case K_GAUSS:
            Image_Function::GetGaussianKernel( o.gauss, k.w, k.h, k.p[0], float( k.p[1] ) / 4 );
            break;
        case K_EDGE:
            edges( k, o.edge, in );
            break;
        case K_EDGEF:
            edges( k, o.edgeF, in );
            break;
        case K_BLOB: {
            Blob_Detection::BlobParameters p;
            if ( k.p[0] & 1 )
                p.circularity.set( k.p[2] / 30.0, 1 );
            if ( k.p[0] & 2 )
                p.elongation.set( k.p[2] / 6.0, k.p[3] );
            if ( k.p[0] & 4 )
                p.width.set( k.p[2], k.p[3] );
            if ( k.p[0] & 8 )
                p.height.setMinimum( k.p[2] );
            if ( k.p[0] & 16 )
                p.length.set( k.p[2], k.p[3] );
            if ( k.p[0] & 32 )
                p.size.setMaximum( k.p[3] );
            if ( k.form < 2 )
                o.blob.find( in, p, uint8_t( k.p[1] ) );
            else
                o.blob.find( in, k.x, k.y, k.w, k.h, p, uint8_t( k.p[1] ) );
            for ( auto & b : o.blob.get() ) {
                b.circularity();
                b.elongation();
                b.length();
                b.area();
                b.center();
                b.width();
                b.height();
            }
            if ( k.p[4] < 6 )
                o.blob.sort( Blob_Detection::BlobDetection::BlobCriterion( k.p[4] ) );
            break;
        }
        case K_FFT: {
            const penguinV::Image part = Image_Function::Copy( in, k.x, k.y, k.w, k.h );
            if ( k.form == 0 || !o.fft )
                o.fft.reset( new FFT::FFTExecutor( k.w, k.h ) );
            else
                o.fft->initialize( k.w, k.h );
            o.a.set( part );
            if ( k.p[0] == 0 ) {
                o.b.resize( k.w, k.h );
                o.fft->directTransform( o.a, o.b );
                o.fft->inverseTransform( o.b, o.a );
            }
            else {
                FFT::ComplexData copy( static_cast<const ComplexBase &>( o.a ) );
                o.fft->directTransform( o.a );
                o.fft->directTransform( copy );
                o.b.resize( k.w, k.h );
                if ( k.p[0] == 1 )
                    o.fft->complexMultiplication( o.a, copy, o.b );
                else
                    static_cast<ComplexBase &>( o.b ) = std::move( copy );
                o.fft->inverseTransform( o.b );
            }
            i.out = o.b.get();
            break;
        }
        case K_HAAR:
            o.haarD.resize( i.d.size() );
            if ( k.p[0] )
                Image_Function::HaarInverseTransform( i.d, o.haarD, k.w / 2 * 2, k.h / 2 * 2 );
            else
                Image_Function::HaarDirectTransform( i.d, o.haarD, k.w / 2 * 2, k.h / 2 * 2 );
            break;
        case K_HAARF:
            o.haarF.resize( i.f.size() );
            if ( k.p[0] )
                Image_Function::HaarInverseTransform( i.f, o.haarF, k.w / 2 * 2, k.h / 2 * 2 );
            else
                Image_Function::HaarDirectTransform( i.f, o.haarF, k.w / 2 * 2, k.h / 2 * 2 );
            break;
        case K_HOUGH:
            Image_Function::HoughTransform( i.pd, k.p[1] * 0.0174532925, k.p[2] * 0.0174532925, k.p[3] * 0.00174532925, double( k.p[4] ), o.onD, o.offD );
            break;
        case K_HOUGHF:
            Image_Function::HoughTransform( i.pf, float( k.p[1] ) * 0.0174532925f, float( k.p[2] ) * 0.0174532925f, float( k.p[3] ) * 0.00174532925f, float( k.p[4] ), o.onF, o.offF );
            break;
        }
    }

    void tryInvoke( const Call & k, Inputs & i, Objects & o )
    {
        i.thrown = i.outOfMemory = false;
        try {
            invoke( k, i, o );
        }
        catch ( const std::bad_alloc & ) {
            i.thrown = i.outOfMemory = true;
        }
        catch ( const std::exception & e ) {
            i.thrown = true;
            SimRt rt;
            i.what = e.what();
        }
        catch ( ... ) {
            i.thrown = true;
        }
    }

    // the visible outcome of a call
    Bytes outcome( const Call & k, Inputs & i, Objects & o )
    {
        SimRt rt;
        Out r;
        if ( i.thrown ) {
            r.num( 0xdead );
            return r.b;
        }
        switch ( k.kind ) {
        case K_FULL:
        case K_GENERIC:
        case K_SIMD:
            for ( int n = 0; n < k.c.nout && !( k.c.sixteen && k.c.fn == ops::ConvertTo16Bit ); ++n )
                r.image( i.l.o( k.c, n ) );
            r.image( i.l.img );
            if ( k.c.sixteen ) {
                r.image( i.l.img16 );
                if ( k.c.fn == ops::ConvertTo16Bit )
                    r.image( i.l.out16 );
            }
            r.vec( i.l.vec );
            if ( k.c.retNum || !k.c.modelled )
                r.num( i.l.num );
            break;
        case K_MEDIAN:
        case K_PREWITT:
        case K_SOBEL:
        case K_FFT:
            r.image( i.out );
            break;
        case K_GAUSS:
            r.num( o.gauss.size() );
            r.raw( o.gauss.data(), o.gauss.size() * 4 );
            break;
        case K_EDGE:
            r.points( o.edge.positiveEdge() );
            r.points( o.edge.negativeEdge() );
            break;
        case K_EDGEF:
            r.points( o.edgeF.positiveEdge() );
            r.points( o.edgeF.negativeEdge() );
            break;
        case K_BLOB: {
            const auto & bs = o.blob.get();
            r.num( bs.size() );
            for ( const auto & b : bs ) {
                r.vec( b.pointX() );
                r.vec( b.pointY() );
                r.vec( b.contourX() );
                r.vec( b.contourY() );
                r.vec( b.edgeX() );
                r.vec( b.edgeY() );
                r.real( b.circularity() );
                r.real( b.elongation() );
                r.real( b.length() );
                r.real( b.center().x );
                r.real( b.center().y );
                r.num( b.width() );
                r.num( b.height() );
                r.num( b.area().left );
                r.num( b.area().bottom );
            }
            break;
        }
        case K_HAAR:
            r.raw( o.haarD.data(), o.haarD.size() * 8 );
            break;
        case K_HAARF:
            r.raw( o.haarF.data(), o.haarF.size() * 4 );
            break;
        case K_HOUGH:
            r.points( o.onD );
            r.points( o.offD );
            break;
        case K_HOUGHF:
            r.points( o.onF );
            r.points( o.offF );
            break;
        }
        return r.b;
    }

    bool needsSolo( const Call & k )
    {
        return k.kind > K_SIMD || !k.c.modelled;
    }

    size_t soloRun( void * arg, char * out, size_t cap )
    {
        const Call & k = *static_cast<const Call *>( arg );
        Inputs i;
        Objects o;
        i.build( k );
        tryInvoke( k, i, o );
        const Bytes b = outcome( k, i, o );
        if ( b.size() <= cap )
            memcpy( out, b.data(), b.size() );
        return b.size();
    }

    // what the call gives in a process of its own
    void solo( Call & k )
    {
        if ( !needsSolo( k ) )
            return;
        static char buf[1u << 20];
        const long n = sim_solo( soloRun, &k, buf, sizeof buf );
        SimRt rt;
        if ( n < 0 )
            sim_fail( "solo-crash", "%s: a single call does not end normally", k.text().c_str() );
        if ( size_t( n ) > sizeof buf )
            sim_fail( "internal", "result too big" );
        k.expected.assign( buf, buf + n );
        k.known = true;
    }

    void check( const Call & k, Inputs & i, Objects & o, const char * when )
    {
        std::string why;
        if ( !i.intact( k, why ) ) {
            SimRt rt;
            sim_fail( "input-changed", "%s%s: %s", when, k.text().c_str(), why.c_str() );
        }
        if ( i.thrown && !( k.known && k.expected.size() == 8 ) ) {
            SimRt rt;
            sim_fail( "unexpected-exception", "%s%s: %s", when, k.text().c_str(), i.outOfMemory ? "out of memory" : i.what.c_str() );
        }
        if ( k.known ) {
            const Bytes b = outcome( k, i, o );
            SimRt rt;
            if ( b != k.expected ) {
                size_t n = 0;
                while ( n < b.size() && n < k.expected.size() && b[n] == k.expected[n] )
                    ++n;
                sim_fail( "wrong-result", "%s%s: the result differs from that of a single call (%zu and %zu bytes, first difference at %zu)", when, k.text().c_str(), b.size(),
                          k.expected.size(), n );
            }
        }
        else if ( !ops::resultsExact( k.c, i.l, why ) ) {
            SimRt rt;
            sim_fail( "wrong-result", "%s%s: %s", when, k.text().c_str(), why.c_str() );
        }
    }

    ops::Limits limits( bool big )
    {
        ops::Limits lim;
        lim.maxBytes = big && sim_choose( 4 ) == 0 ? 900 : 300;
        return lim;
    }

    int pickKind()
    {
        // the image functions are most of the library
        return sim_choose( 2 ) ? int( sim_choose( K_COUNT ) ) : int( sim_choose( 3 ) );
    }

    // C10
    void reentrant()
    {
        const ops::Limits lim = limits( true );
        const uint32_t n = 2 + sim_choose( 2 );
        const bool sameKind = sim_choose( 2 ) == 0; // all threads use the same function at the same time
        const bool share = sim_choose( 3 ) == 0; // and read the same input image
        int kind = pickKind();
        std::vector<std::vector<Call>> work( n );
        for ( auto & v : work ) {
            v.resize( 1 + sim_choose( 2 ) );
            for ( Call & k : v ) {
                k.gen( sameKind ? kind : pickKind(), lim );
            }
        }
        if ( share )
            for ( uint32_t i = 1; i < n; ++i )
                work[i][0] = work[0][0];
        for ( auto & v : work )
            for ( Call & k : v )
                solo( k );
        if ( sim_choose( 3 ) == 0 ) {
            // a process which has used the library before
            Call k;
            k.gen( pickKind(), lim );
            Inputs i;
            Objects o;
            i.build( k );
            tryInvoke( k, i, o );
        }
        // images are created by their threads or beforehand
        const bool early = share || sim_choose( 2 ) == 0;
        std::vector<std::vector<std::unique_ptr<Inputs>>> inputs( n );
        for ( uint32_t t = 0; t < n; ++t )
            for ( Call & k : work[t] ) {
                inputs[t].emplace_back( new Inputs );
                if ( early )
                    inputs[t].back()->build( k );
            }
        if ( share )
            for ( uint32_t t = 1; t < n; ++t ) {
                inputs[t][0]->shared = inputs[0][0].get();
                if ( !work[t][0].c.inPlace )
                    inputs[t][0]->l.inputsOf = &inputs[0][0]->l;
            }
        std::vector<std::thread> threads;
        for ( uint32_t t = 0; t < n; ++t )
            threads.emplace_back( [&, t] {
                Objects o;
                for ( size_t j = 0; j < work[t].size(); ++j ) {
                    Inputs & i = *inputs[t][j];
                    if ( !early )
                        i.build( work[t][j] );
                    tryInvoke( work[t][j], i, o );
                    check( work[t][j], i, o, "next to other threads: " );
                }
            } );
        for ( std::thread & x : threads )
            x.join();
        inputs.clear();
        work.clear();
        sim_exit_normally();
    }

    // objects which have seen a failure are usable in another way than that of the failed call
    void useAgain( const Call & k, FFT::ComplexData & d )
    {
        const size_t n = size_t( k.w ) * k.h;
        std::vector<float> v( n );
        for ( size_t i = 0; i < n; ++i )
            v[i] = float( i * 7 % 251 );
        {
            SimSut sut;
            try {
                d.resize( k.w, k.h );
                if ( d.empty() || d.width() != k.w || d.height() != k.h )
                    sim_fail( "no-recovery", "after a failed call of %s: ComplexData::resize( %u, %u ) gives %ux%u%s", k.text().c_str(), k.w, k.h, d.width(), d.height(),
                              d.empty() ? " without data" : "" );
                d.set( v );
            }
            catch ( const std::exception & e ) {
                sim_fail( "no-recovery", "after a failed call of %s: ComplexData: %s", k.text().c_str(), e.what() );
            }
        }
        uintptr_t base;
        size_t size;
        const uintptr_t p = reinterpret_cast<uintptr_t>( d.data() );
        if ( !sim_block_of( d.data(), &base, &size ) || p + n * sizeof( kiss_fft_cpx ) > base + size )
            sim_fail( "no-recovery", "after a failed call of %s: data of ComplexData is not in allocated memory", k.text().c_str() );
        for ( size_t i = 0; i < n; ++i )
            if ( d.data()[i].r != v[i] || d.data()[i].i != 0 )
                sim_fail( "no-recovery", "after a failed call of %s: ComplexData does not hold the data which it has been given", k.text().c_str() );
    }

    // C14
    void exhausted()
    {
        const ops::Limits lim = limits( false );
        Call k;
        k.gen( pickKind(), lim );
        solo( k );
        const bool used = sim_choose( 2 ) == 0; // not the first use of the function
        std::unique_ptr<Objects> own( new Objects );
        Objects & o = *own;
        if ( used ) {
            Objects o2;
            Inputs i;
            i.build( k );
            tryInvoke( k, i, o2 );
            if ( sim_choose( 2 ) )
                tryInvoke( k, i, o ); // the objects have been used, too
        }
        const uint64_t serial = sim_alloc_serial();
        {
            const uint32_t tries = 1 + sim_choose( 3 );
            for ( uint32_t t = 0; t < tries; ++t ) {
                Inputs i;
                i.build( k );
                const uint64_t before = sim_alloc_failed();
                if ( sim_choose( 4 ) )
                    sim_alloc_fail_at( 1 + sim_choose( sim_choose( 2 ) ? 40 : 6 ) );
                else
                    sim_alloc_faults( 2 + sim_choose( 10 ) );
                tryInvoke( k, i, o );
                sim_alloc_fail_at( 0 );
                sim_alloc_faults( 0 );
                const bool failed = sim_alloc_failed() != before;
                std::string why;
                if ( i.thrown ) {
                    if ( !failed )
                        check( k, i, o, "" );
                    else {
                        sim_count( "probe.failed-call", 1 );
                        if ( k.kind == K_FFT && sim_choose( 2 ) ) {
                            useAgain( k, o.a );
                            useAgain( k, o.b );
                        }
                    }
                    if ( !i.intact( k, why ) || ( k.kind <= K_SIMD && !k.c.sixteen && !ops::outsideIntact( k.c, i.l, why ) ) ) {
                        SimRt rt;
                        sim_fail( "failed-call-damage", "failed call of %s: %s", k.text().c_str(), why.c_str() );
                    }
                }
                else
                    check( k, i, o, failed ? "an allocation failed but the call reported success: " : "" );
            }
        }
        sim_faults_stop();
        {
            Inputs i;
            i.build( k );
            tryInvoke( k, i, o );
            check( k, i, o, "after a failed call: " );
        }
        {
            SimSut sut;
            own.reset();
        }
        if ( used ) {
            SimRt rt;
            char b[400];
            if ( sim_live_blocks( serial, b, sizeof b ) != 0 )
                sim_fail( "leak", "failed calls of %s leak:%s", k.text().c_str(), b );
        }
        sim_exit_normally();
    }

    SimScenario s1( "lib_reentrant", reentrant );
    SimScenario s2( "lib_exhausted", exhausted );
}
