// C22: generic functions with images of several registered types. Types besides that of the CPU keep their pixels encoded, so that code which takes an image for
// one of another type gives wrong pixels; their functions and the conversions check the types they are given and fail on demand
#include "ops.h"
#include "image_function.h"
#include "image_function_helper.h"
#include "penguinv/penguinv.h"
#include <cstring>
#include <memory>
#include <thread>
#include <tuple>
#include <utility>

namespace
{
    using penguinV::Image;

    namespace gen
    {
#define NS penguinV
#define OPS_BGR
#define OPS_SUM
#define OPS_RESIZE
#define OPS_MERGE
#define OPS_COPY
#define OPS_ACCUMULATE
#define OPS_SETPIXEL
#define OPS_GETPIXEL
#define OPS_GETTHRESHOLD
#include "op_exec.inc"
#undef NS
    }

    enum
    {
        TA = 20,
        TB = 21,
        CPU = 0
    };
    const uint8_t TYPES[3] = { CPU, TA, TB };
    uint8_t key( int type )
    {
        return type == TA ? 0x5A : type == TB ? 0xC3 : 0;
    }

    // what goes wrong on demand
    struct Demand
    {
        int convertAt = 0, callAt = 0; // which of the calls from now on fails
        int kind = 0; // exception
        bool late = false; // after a part of the work
        uint64_t failed = 0;
    } g_d;
    bool g_single = true; // no other threads

    void happens( const char * what )
    {
        ++g_d.failed;
        sim_count( what, 1 );
        switch ( g_d.kind ) {
        case 0:
            throw penguinVException( "failure on demand" );
        case 1:
            throw std::bad_alloc();
        default:
            throw 42;
        }
    }
    bool due( int & n )
    {
        return g_single && n > 0 && --n == 0;
    }

    // memory of the types
    struct Block
    {
        uint8_t * p;
        int type;
    };
    const int MAXB = 4096;
    Block g_block[MAXB];
    int g_blocks;

    template <int T>
    class Foreign : public Image
    {
    public:
        explicit Foreign( uint32_t w = 0, uint32_t h = 0, uint8_t cc = 1, uint8_t al = 1 )
        {
            _setType( T, allocate, deallocate, copyMemory, setMemory );
            setColorCount( cc );
            setAlignment( al );
            resize( w, h );
        }

    private:
        static uint8_t * allocate( size_t n )
        {
            uint8_t * p = new uint8_t[n];
            SimRt rt;
            if ( g_blocks == MAXB )
                sim_fail( "harness", "too many blocks" );
            memset( p, 0x77, n );
            g_block[g_blocks++] = Block{ p, T };
            return p;
        }
        static void deallocate( uint8_t * p )
        {
            {
                SimRt rt;
                int i = 0;
                while ( i < g_blocks && g_block[i].p != p )
                    ++i;
                if ( i == g_blocks )
                    sim_fail( "image-memory", "memory which was never allocated or is already released is released as an image of type %d", T );
                if ( g_block[i].type != T )
                    sim_fail( "image-memory", "memory of an image of type %d is released as one of type %d", g_block[i].type, T );
                g_block[i] = g_block[--g_blocks];
            }
            delete[] p;
        }
        static void copyMemory( uint8_t * out, uint8_t * in, size_t n )
        {
            sim_read( in, n );
            sim_write( out, n );
            SimRt rt;
            memcpy( out, in, n );
        }
        static void setMemory( uint8_t * p, uint8_t v, size_t n )
        {
            sim_write( p, n );
            SimRt rt;
            memset( p, v ^ key( T ), n );
        }
    };

    Image make( int type, uint32_t w, uint32_t h, uint8_t cc, uint8_t al )
    {
        switch ( type ) {
        case TA:
            return Foreign<TA>( w, h, cc, al );
        case TB:
            return Foreign<TB>( w, h, cc, al );
        default:
            return Image( w, h, cc, al );
        }
    }

    // whole rows: the same image as another type
    void recode( const Image & in, Image & out, bool padding )
    {
        if ( in.empty() || out.empty() )
            throw penguinVException( "an image is empty" );
        if ( in.width() != out.width() || in.height() != out.height() || in.colorCount() != out.colorCount() )
            throw penguinVException( "images are of different sizes" );
        const uint8_t k = key( in.type() ) ^ key( out.type() );
        const uint32_t n = padding ? std::min( in.rowSize(), out.rowSize() ) : in.width() * in.colorCount();
        for ( uint32_t y = 0; y < in.height(); ++y ) {
            const uint8_t * i = in.data() + size_t( y ) * in.rowSize();
            uint8_t * o = out.data() + size_t( y ) * out.rowSize();
            sim_read( i, n );
            sim_write( o, n );
            SimRt rt;
            for ( uint32_t x = 0; x < n; ++x )
                o[x] = i[x] ^ k;
        }
    }
    Image as( const Image & i, int type )
    {
        if ( i.empty() )
            return make( type, 0, 0, i.colorCount(), i.alignment() );
        Image r = make( type, i.width(), i.height(), i.colorCount(), i.alignment() );
        recode( i, r, true );
        return r;
    }

    template <int FROM, int TO>
    void convert( const Image & in, Image & out )
    {
        if ( in.type() != FROM || out.type() != TO )
            sim_fail( "image-type", "the conversion of type %d to %d is given images of types %d and %d", FROM, TO, in.type(), out.type() );
        sim_count( "probe.conversion", 1 );
        const bool fails = due( g_d.convertAt );
        if ( fails && !g_d.late )
            happens( "fault.conversion" );
        recode( in, out, false );
        if ( fails )
            happens( "fault.conversion" );
    }

    // functions of a type: those of the CPU with decoded images
    template <int T, typename A>
    struct Arg
    {
        Arg( A a )
            : v( a )
        {}
        A get()
        {
            return v;
        }
        void done() {}
        A v;
    };
    template <int T>
    struct Arg<T, const Image &>
    {
        Arg( const Image & i )
        {
            if ( i.type() != T )
                sim_fail( "image-type", "a function of type %d is given an image of type %d", T, i.type() );
            v = as( i, CPU );
        }
        const Image & get()
        {
            return v;
        }
        void done() {}
        Image v;
    };
    template <int T>
    struct Arg<T, Image &>
    {
        Arg( Image & i )
            : r( i )
        {
            if ( i.type() != T )
                sim_fail( "image-type", "a function of type %d is given an image of type %d for its result", T, i.type() );
            v = as( i, CPU );
            before = as( i, CPU );
        }
        Image & get()
        {
            return v;
        }
        void done()
        {
            if ( r.empty() )
                return;
            // what has changed: several images can be one
            const size_t n = size_t( v.rowSize() ) * v.height();
            sim_read( v.data(), n );
            sim_write( r.data(), n );
            SimRt rt;
            for ( size_t i = 0; i < n; ++i )
                if ( v.data()[i] != before.data()[i] )
                    r.data()[i] = v.data()[i] ^ key( T );
        }
        Image & r;
        Image v, before;
    };

    Image_Function_Helper::FunctionTableHolder g_cpu; // all functions of the CPU

    template <int T, typename F, F Image_Function_Helper::FunctionTableHolder::*M>
    struct Wrap;
    template <int T, typename R, typename... A, R ( *Image_Function_Helper::FunctionTableHolder::*M )( A... )>
    struct Wrap<T, R ( * )( A... ), M>
    {
        template <size_t... I>
        static R run( std::tuple<Arg<T, A>...> & a, std::index_sequence<I...> )
        {
            return ( g_cpu.*M )( std::get<I>( a ).get()... );
        }
        template <size_t... I>
        static void done( std::tuple<Arg<T, A>...> & a, std::index_sequence<I...> )
        {
            int x[] = { ( std::get<I>( a ).done(), 0 )... };
            (void)x;
        }
        static R call( A... a )
        {
            typedef std::index_sequence_for<A...> Index;
            sim_count( "probe.foreign-call", 1 );
            const bool fails = due( g_d.callAt );
            if ( fails && !g_d.late )
                happens( "fault.function" );
            std::tuple<Arg<T, A>...> h( a... );
            if constexpr ( std::is_void<R>::value ) {
                run( h, Index() );
                done( h, Index() );
                if ( fails )
                    happens( "fault.function" );
            }
            else {
                R r = run( h, Index() );
                done( h, Index() );
                if ( fails )
                    happens( "fault.function" );
                return r;
            }
        }
    };

#define TABLE( X )                                                                                                                                               \
    X( AbsoluteDifference )                                                                                                                                      \
    X( Accumulate )                                                                                                                                              \
    X( BitwiseAnd )                                                                                                                                              \
    X( BitwiseOr )                                                                                                                                               \
    X( BitwiseXor )                                                                                                                                              \
    X( ConvertToGrayScale )                                                                                                                                      \
    X( ConvertToRgb )                                                                                                                                            \
    X( Copy )                                                                                                                                                    \
    X( ExtractChannel )                                                                                                                                          \
    X( Fill )                                                                                                                                                    \
    X( Flip )                                                                                                                                                    \
    X( GammaCorrection )                                                                                                                                         \
    X( GetPixel )                                                                                                                                                \
    X( Histogram )                                                                                                                                               \
    X( Invert )                                                                                                                                                  \
    X( IsEqual )                                                                                                                                                 \
    X( LookupTable )                                                                                                                                             \
    X( Maximum )                                                                                                                                                 \
    X( Merge )                                                                                                                                                   \
    X( Minimum )                                                                                                                                                 \
    X( Normalize )                                                                                                                                               \
    X( ProjectionProfile )                                                                                                                                       \
    X( Resize )                                                                                                                                                  \
    X( RgbToBgr )                                                                                                                                                \
    X( SetPixel )                                                                                                                                                \
    X( SetPixel2 )                                                                                                                                               \
    X( Split )                                                                                                                                                   \
    X( Subtract )                                                                                                                                                \
    X( Sum )                                                                                                                                                     \
    X( Threshold )                                                                                                                                               \
    X( Threshold2 )                                                                                                                                              \
    X( Transpose )

    typedef Image_Function_Helper::FunctionTableHolder Table;

    // functions which exist only as members of tables
#define TABLE_ONLY( X )                                                                                                                                          \
    X( ConvertTo16Bit )                                                                                                                                          \
    X( ConvertTo8Bit )                                                                                                                                           \
    X( RgbToRgba )                                                                                                                                               \
    X( RgbaToRgb )                                                                                                                                               \
    X( Shift )

    // what the registry has to hold
    struct Expected
    {
        bool known = false;
        Table t;

        void add( const Table & n, bool force )
        {
#define X( F )                                                                                                                                                   \
    if ( t.F == nullptr || ( force && n.F != nullptr ) )                                                                                                         \
        t.F = n.F;
            TABLE( X )
            TABLE_ONLY( X )
#undef X
            known = true;
        }
    } g_x[TB + 1];
    bool g_wrapped, g_running;

    void setTable( int type, const Table & t, bool force )
    {
        g_x[type].add( t, force );
        {
            SimSut sut;
            ImageTypeManager::instance().setFunctionTable( uint8_t( type ), t, force );
        }
        const Table & r = ImageTypeManager::instance().functionTable( uint8_t( type ) );
#define X( F )                                                                                                                                                   \
    if ( r.F != g_x[type].t.F )                                                                                                                                  \
        sim_fail( "registration", "function " #F " of image type %d is %s", type, r.F ? "not the one registered" : "missing although it is registered" );
        TABLE( X )
        TABLE_ONLY( X )
#undef X
    }

    // functions which are never called
    template <int N, typename F>
    struct Never;
    template <int N, typename R, typename... A>
    struct Never<N, R ( * )( A... )>
    {
        static R call( A... )
        {
            sim_fail( "harness", "a function without a generic form is called" );
            abort();
        }
    };

    template <int T>
    Table part( uint32_t density, ops::Rng & r )
    {
        Table t;
#define X( F )                                                                                                                                                   \
    if ( r.next() % 4 < density )                                                                                                                             \
        t.F = &Wrap<T, decltype( Table::F ), &Table::F>::call;
        TABLE( X )
#undef X
#define X( F )                                                                                                                                                   \
    if ( r.next() % 4 < density )                                                                                                                             \
        t.F = &Never<T, decltype( Table::F )>::call;
        TABLE_ONLY( X )
#undef X
        return t;
    }
    // a part of the functions of the CPU
    Table cpuPart( uint32_t density, ops::Rng & r )
    {
        Table t;
#define X( F )                                                                                                                                                   \
    if ( r.next() % 4 < density )                                                                                                                             \
        t.F = g_cpu.F;
        TABLE( X )
        TABLE_ONLY( X )
#undef X
        return t;
    }
    // the function table of a type: functions are registered at once or in two steps
    void registerType( int type, uint32_t density, bool twoSteps )
    {
        ops::Rng r( sim_choose( 1u << 30 ) );
        for ( int i = 0; i < ( twoSteps ? 2 : 1 ); ++i ) {
            const Table t = type == TA ? part<TA>( density, r ) : type == TB ? part<TB>( density, r ) : cpuPart( density, r );
            setTable( type, t, i && sim_choose( 2 ) );
        }
    }

    bool has( int type, int fn )
    {
        const Table & t = g_x[type].t;
        switch ( fn ) {
        case ops::Threshold1:
            return t.Threshold != nullptr;
        case ops::SetPixel1:
            return t.SetPixel != nullptr;
#define Y( F )                                                                                                                                                   \
    case ops::F:                                                                                                                                                 \
        return t.F != nullptr;
            Y( AbsoluteDifference )
            Y( Accumulate )
            Y( BitwiseAnd )
            Y( BitwiseOr )
            Y( BitwiseXor )
            Y( ConvertToGrayScale )
            Y( ConvertToRgb )
            Y( Copy )
            Y( ExtractChannel )
            Y( Fill )
            Y( Flip )
            Y( GammaCorrection )
            Y( GetPixel )
            Y( Histogram )
            Y( Invert )
            Y( IsEqual )
            Y( LookupTable )
            Y( Maximum )
            Y( Merge )
            Y( Minimum )
            Y( Normalize )
            Y( ProjectionProfile )
            Y( Resize )
            Y( RgbToBgr )
            Y( SetPixel2 )
            Y( Split )
            Y( Subtract )
            Y( Sum )
            Y( Threshold2 )
            Y( Transpose )
#undef Y
        default:
            return true;
        }
    }

    struct Call
    {
        ops::Case c;
        int tin[3] = {}, tout[3] = {}; // types of images

        void gen()
        {
            ops::Limits lim;
            lim.maxBytes = 700;
            lim.maxSide = 24;
            ops::generate( c, int( sim_choose( uint32_t( ops::GetThreshold ) ) ), lim );
            if ( sim_choose( 8 ) == 0 && ( ( c.fn != ops::Fill && c.fn != ops::Copy ) || c.form >= 2 ) )
                ops::spoil( c );
            const uint32_t how = sim_choose( 3 );
            const int one = TYPES[sim_choose( 3 )];
            for ( int i = 0; i < 3; ++i ) {
                tin[i] = how == 0 ? one : TYPES[sim_choose( 3 )];
                tout[i] = TYPES[sim_choose( 3 )];
            }
            if ( how == 1 )
                for ( int i = 1; i < 3; ++i )
                    tout[i] = tout[0];
        }
        int first() const // the type of the image which selects the function
        {
            return c.nin ? tin[0] : tout[0];
        }
        std::string text() const
        {
            char b[100];
            snprintf( b, sizeof b, " (types of inputs %d %d %d, of outputs %d %d %d)", tin[0], tin[1], tin[2], tout[0], tout[1], tout[2] );
            return "penguinV::" + c.text() + b;
        }
    };

    struct Objects
    {
        ops::Live l;
        bool thrown = false;
        std::string what;

        void build( const Call & k )
        {
            SimSut sut;
            l.build( k.c );
            for ( int i = 0; i < k.c.nin; ++i )
                retype( l.in[i], k.tin[i] );
            if ( !k.c.inPlace )
                for ( int i = 0; i < k.c.nout; ++i )
                    retype( l.out[i], k.tout[i] );
        }
        static void retype( Image & i, int type )
        {
            if ( type != CPU ) {
                Image x = as( i, type );
                i.swap( x );
            }
        }
        static void back( Image & i, int expected, const Call & k, const char * what )
        {
            if ( i.type() != expected )
                sim_fail( "image-type", "%s of %s is of type %d instead of %d", what, k.text().c_str(), i.type(), expected );
            if ( expected != CPU ) {
                Image x = as( i, CPU );
                i.swap( x );
            }
        }
        void call( const Call & k )
        {
            thrown = false;
            SimSut sut;
            try {
                gen::exec( k.c, l );
            }
            catch ( const std::exception & e ) {
                SimRt rt;
                thrown = true;
                what = e.what();
            }
            catch ( int ) {
                SimRt rt;
                thrown = true;
                what = "int";
            }
        }
        // images as those of the CPU again
        void decode( const Call & k )
        {
            for ( int i = 0; i < k.c.nin; ++i )
                back( l.in[i], k.tin[i], k, "an input" );
            if ( !k.c.inPlace )
                for ( int i = 0; i < k.c.nout; ++i )
                    back( l.out[i], k.tout[i], k, "an output" );
            if ( !thrown && k.c.retImg )
                back( l.img, k.first(), k, "the result" );
        }
    };

    bool g_enabled, g_conv[TB + 1][TB + 1];

    void failed( const char * cls, const Call & k, const char * when, const std::string & why )
    {
        sim_fail( cls, "%s%s: %s", when, k.text().c_str(), why.c_str() );
    }

    void check( const Call & k, Objects & o, const char * when, bool mayThrow )
    {
        std::string why;
        o.decode( k );
        if ( !ops::inputsIntact( k.c, o.l, why ) )
            failed( "input-changed", k, when, why );
        if ( o.thrown ) {
            if ( !mayThrow )
                failed( "unexpected-exception", k, when, o.what );
            if ( !ops::outsideIntact( k.c, o.l, why ) )
                failed( "failed-call-damage", k, when, why );
            return;
        }
        if ( k.c.mustThrow )
            failed( "no-exception", k, when, "a call with invalid arguments reports success" );
        if ( !ops::resultsExact( k.c, o.l, why ) )
            failed( "wrong-result", k, when, why );
        sim_count( "probe.checked-call", 1 );
    }

    // calls which may be refused although nothing fails
    bool refusable( const std::vector<int> & images, int first, int fn )
    {
        if ( !g_x[first].known )
            return true;
        bool any = false;
        for ( int t : TYPES ) {
            if ( !g_x[t].known || !has( t, fn ) || ( t != first && ( has( first, fn ) || !g_enabled ) ) )
                continue;
            any = true; // images can be converted to this type
            for ( int i : images )
                if ( i != t && ( !g_enabled || !g_conv[i][t] || !g_conv[t][i] ) )
                    return true;
        }
        return !any;
    }
    bool refusable( const Call & k )
    {
        if ( k.c.mustThrow )
            return true;
        std::vector<int> images( 1, k.first() );
        images.insert( images.end(), k.tin, k.tin + k.c.nin );
        if ( !k.c.inPlace )
            images.insert( images.end(), k.tout, k.tout + k.c.nout );
        return refusable( images, k.first(), k.c.fn );
    }

    // what an application does in any order at its start, and when it loads more modules later
    struct Step
    {
        int type = 0, to = -1; // a function table, or a conversion
        uint32_t density = 0;
        bool two = false;
    };
    std::vector<Step> g_later;

    template <int A, int B>
    void addConversion( const Image & a, const Image & b )
    {
        SimSut sut;
        ImageTypeManager::instance().setConvertFunction( convert<A, B>, a, b );
        g_conv[A][B] = true;
    }
    void perform( const Step & s )
    {
        if ( s.to < 0 ) {
            registerType( s.type, s.density, s.two );
            return;
        }
        const Image c;
        const Foreign<TA> a;
        const Foreign<TB> b;
        if ( s.type == CPU )
            s.to == TA ? addConversion<CPU, TA>( c, a ) : addConversion<CPU, TB>( c, b );
        else if ( s.type == TA )
            s.to == CPU ? addConversion<TA, CPU>( a, c ) : addConversion<TA, TB>( a, b );
        else
            s.to == CPU ? addConversion<TB, CPU>( b, c ) : addConversion<TB, TA>( b, a );
    }

    void setup( bool later )
    {
        ImageTypeManager & m = ImageTypeManager::instance();
        g_enabled = sim_choose( 6 ) != 5;
        std::vector<Step> steps;
        for ( int t : TYPES ) {
            if ( t == CPU && !g_wrapped ) {
                g_cpu = g_x[CPU].t = m.functionTable( CPU );
                g_x[CPU].known = true;
                continue;
            }
            Step s;
            s.type = t;
            s.density = t == CPU ? ( sim_choose( 4 ) ? 4 : sim_choose( 5 ) ) : sim_choose( 5 );
            s.two = sim_choose( 2 );
            steps.push_back( s );
            for ( int o : TYPES )
                if ( o != t && sim_choose( 24 ) != 23 ) {
                    Step c;
                    c.type = t;
                    c.to = o;
                    steps.push_back( c );
                }
        }
        if ( !g_wrapped )
            for ( int o : { TA, TB } ) {
                Step c;
                c.to = o;
                steps.push_back( c );
            }
        if ( sim_choose( 2 ) )
            for ( size_t i = steps.size() - 1; i; --i )
                std::swap( steps[i], steps[sim_choose( uint32_t( i + 1 ) )] );
        size_t now = steps.size();
        if ( later && sim_choose( 3 ) == 0 )
            now = sim_choose( uint32_t( now ) );
        for ( size_t i = 0; i < steps.size(); ++i ) {
            if ( i < now )
                perform( steps[i] );
            else
                g_later.push_back( steps[i] );
        }
        m.enableIntertypeConversion( g_enabled );
    }
    void more()
    {
        for ( uint32_t n = sim_choose( 4 ); n && !g_later.empty(); --n ) {
            perform( g_later.back() );
            g_later.pop_back();
            sim_count( "probe.late-registration", 1 );
        }
    }

    // three results in one image
    void splitIntoOne()
    {
        const uint32_t w = ops::side( 12 ), h = ops::side( 6 );
        const int ti = TYPES[sim_choose( 3 )], to = TYPES[sim_choose( 3 )];
        ops::RImg r, o;
        r.make( w, h, 3, ops::alignmentChoice() );
        o.make( w, 3 * h, 1, ops::alignmentChoice() );
        ops::paint( r, sim_choose( 1u << 30 ), 1 );
        ops::paint( o, sim_choose( 1u << 30 ), 1 );
        Image in, out;
        bool thrown = false;
        std::string what;
        {
            SimSut sut;
            ops::Live::load( in, r );
            ops::Live::load( out, o );
            Objects::retype( in, ti );
            Objects::retype( out, to );
            try {
                penguinV::Split( in, 0, 0, out, 0, 0, out, 0, h, out, 0, 2 * h, w, h );
            }
            catch ( const std::exception & e ) {
                SimRt rt;
                thrown = true;
                what = e.what();
            }
        }
        if ( out.type() != to || in.type() != ti )
            sim_fail( "image-type", "Split changes the type of an image" );
        if ( thrown ) {
            if ( !refusable( { ti, to }, ti, ops::Split ) )
                sim_fail( "unexpected-exception", "Split into one image: %s", what.c_str() );
            return;
        }
        for ( uint32_t k = 0; k < 3; ++k )
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    o.d[size_t( k * h + y ) * o.rs + x] = r.d[size_t( y ) * r.rs + x * 3 + k];
        Image host;
        {
            SimSut sut;
            host = as( out, CPU );
        }
        std::string why;
        if ( !ops::bufferEquals( host, o, why ) )
            sim_fail( "wrong-result", "Split of type %d into one image of type %d: %s", ti, to, why.c_str() );
    }

    void types()
    {
        g_running = true;
        const uint32_t n = sim_choose( 4 ) == 0 ? 2 + sim_choose( 2 ) : 1;
        setup( n == 1 );
        if ( sim_choose( 24 ) == 0 ) {
            splitIntoOne();
            sim_exit_normally();
        }
        std::vector<std::vector<Call>> work( n );
        for ( auto & v : work ) {
            v.resize( 1 + sim_choose( n == 1 ? 3 : 2 ) );
            for ( Call & k : v )
                k.gen();
        }
        if ( n > 1 ) {
            g_single = false;
            std::vector<std::thread> threads;
            for ( uint32_t t = 0; t < n; ++t )
                threads.emplace_back( [&work, t] {
                    for ( Call & k : work[t] ) {
                        Objects o;
                        o.build( k );
                        o.call( k );
                        check( k, o, "next to other threads: ", refusable( k ) );
                    }
                } );
            for ( std::thread & x : threads )
                x.join();
            sim_exit_normally();
        }
        for ( Call & k : work[0] ) {
            more();
            {
                Objects o;
                o.build( k );
                o.call( k );
                check( k, o, "", refusable( k ) );
            }
            const uint64_t serial = sim_alloc_serial();
            const uint32_t tries = sim_choose( 4 );
            for ( uint32_t t = 0; t < tries; ++t ) {
                Objects o;
                o.build( k );
                g_d = Demand();
                g_d.kind = int( sim_choose( 3 ) );
                g_d.late = sim_choose( 2 );
                const uint64_t before = sim_alloc_failed();
                switch ( sim_choose( 4 ) ) {
                case 0:
                    g_d.convertAt = 1 + int( sim_choose( 7 ) );
                    break;
                case 1:
                    g_d.callAt = 1;
                    break;
                case 2:
                    sim_alloc_fail_at( 1 + sim_choose( 16 ) );
                    break;
                default:
                    g_d.convertAt = 1 + int( sim_choose( 7 ) );
                    sim_alloc_fail_at( 1 + sim_choose( 16 ) );
                }
                o.call( k );
                sim_alloc_fail_at( 0 );
                const bool any = g_d.failed || sim_alloc_failed() != before;
                g_d.convertAt = g_d.callAt = 0;
                if ( any && o.thrown )
                    sim_count( "probe.failed-call", 1 );
                check( k, o, any ? "with a failure: " : "", any || refusable( k ) );
            }
            {
                Objects o;
                o.build( k );
                o.call( k );
                check( k, o, "after failed calls: ", refusable( k ) );
            }
            SimRt rt;
            char b[400];
            if ( sim_live_blocks( serial, b, sizeof b ) != 0 )
                sim_fail( "leak", "calls of %s leak:%s", k.text().c_str(), b );
        }
        if ( g_blocks != 0 )
            sim_fail( "leak", "%d images are not released", g_blocks );
        sim_exit_normally();
    }

    SimScenario s1( "types", types );
}

// functions of the CPU, which the library registers at its start, are registered by the scenario
#define SET _ZN16ImageTypeManager16setFunctionTableEhRKN21Image_Function_Helper19FunctionTableHolderEb
#define JOIN2( a, b ) a##b
#define JOIN( a, b ) JOIN2( a, b )
extern "C" void JOIN( __real_, SET )( ImageTypeManager * m, uint8_t type, const Table & t, bool force );
extern "C" void JOIN( __wrap_, SET )( ImageTypeManager * m, uint8_t type, const Table & t, bool force )
{
    if ( g_running || type != CPU ) {
        JOIN( __real_, SET )( m, type, t, force );
        return;
    }
    Expected x;
    x.t = g_cpu;
    x.add( t, force );
    g_cpu = x.t;
    g_wrapped = true;
}
