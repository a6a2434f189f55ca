// Image operations: generated calls, an independent per-pixel model of their results, and a comparison of complete buffers.
// The model is written from the documented definition of each function, not from any implementation in the repository.
#pragma once
#include "rt.h"
#include "image_buffer.h"
#include <cmath>
#include <cstring>
#include <exception>
#include <memory>
#include <string>
#include <vector>

namespace ops
{
    enum Fn
    {
        AbsoluteDifference,
        BitwiseAnd,
        BitwiseOr,
        BitwiseXor,
        Maximum,
        Minimum,
        Subtract,
        Invert,
        GammaCorrection,
        LookupTable,
        Threshold1,
        Threshold2,
        Normalize,
        ConvertToGrayScale,
        ConvertToRgb,
        ExtractChannel,
        RgbToBgr,
        Flip,
        Transpose,
        Histogram,
        ProjectionProfile,
        IsEqual,
        Sum,
        Resize,
        Merge,
        Split,
        poolEnd, // --- all above: Function_Pool
        Copy = poolEnd,
        Fill,
        Accumulate,
        SetPixel1,
        SetPixel2,
        GetPixel,
        GetThreshold,
        genEnd, // --- all above: penguinV
        RgbToRgba = genEnd,
        RgbaToRgb,
        ReplaceChannel,
        HistogramMask,
        IsBinary,
        ConvertTo16Bit,
        ConvertTo8Bit,
        BinaryDilate,
        BinaryErode,
        Rotate,
        Shift,
        fullEnd
    };

    inline const char * name( int f )
    {
        static const char * const n[] = { "AbsoluteDifference", "BitwiseAnd", "BitwiseOr", "BitwiseXor", "Maximum", "Minimum", "Subtract", "Invert", "GammaCorrection",
            "LookupTable", "Threshold", "Threshold(min,max)", "Normalize", "ConvertToGrayScale", "ConvertToRgb", "ExtractChannel", "RgbToBgr", "Flip", "Transpose",
            "Histogram", "ProjectionProfile", "IsEqual", "Sum", "Resize", "Merge", "Split", "Copy", "Fill", "Accumulate", "SetPixel", "SetPixel(points)", "GetPixel",
            "GetThreshold", "RgbToRgba", "RgbaToRgb", "ReplaceChannel", "Histogram(mask)", "IsBinary", "ConvertTo16Bit", "ConvertTo8Bit", "BinaryDilate", "BinaryErode",
            "Rotate", "Shift" };
        return n[f];
    }

    // an image as the model sees it
    struct RImg
    {
        uint32_t w = 0, h = 0;
        uint32_t cc = 1, al = 1, rs = 0;
        std::vector<uint8_t> d;

        void make( uint32_t w_, uint32_t h_, uint32_t cc_, uint32_t al_ )
        {
            w = w_;
            h = h_;
            cc = cc_;
            al = al_;
            rs = ( w * cc + al - 1 ) / al * al;
            d.assign( size_t( rs ) * h, 0 );
        }
        uint8_t & at( uint32_t x, uint32_t y, uint32_t c )
        {
            return d[size_t( y ) * rs + x * cc + c];
        }
        const uint8_t & at( uint32_t x, uint32_t y, uint32_t c ) const
        {
            return d[size_t( y ) * rs + x * cc + c];
        }
    };

    struct Rng
    {
        uint64_t s;
        explicit Rng( uint64_t seed )
            : s( seed * 0x9E3779B97F4A7C15ull + 0x632BE59BD9B4E019ull )
        {}
        uint64_t next()
        {
            uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
            z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
            z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
            return z ^ ( z >> 31 );
        }
        uint32_t below( uint32_t n )
        {
            return uint32_t( next() % n );
        }
    };

    // random bytes everywhere (row padding too)
    inline void paint( RImg & i, uint32_t seed, uint32_t mode )
    {
        Rng r( seed );
        const uint8_t base = uint8_t( r.next() ), span = uint8_t( 2 + r.below( 40 ) );
        for ( uint8_t & b : i.d ) {
            switch ( mode ) {
            case 1:
                b = r.below( 2 ) ? 255 : 0;
                break;
            case 2:
                b = base;
                break;
            case 3:
                b = uint8_t( base + r.below( span ) );
                break;
            case 4:
                b = r.below( 12 ) ? 0 : 255;
                break;
            default:
                b = uint8_t( r.next() );
            }
        }
    }

    struct Case
    {
        int fn = 0, form = 0;
        int nin = 0, nout = 0; // number of input and caller provided output images
        RImg in[3], out[3]; // out: initial contents
        uint32_t ix[3] = {}, iy[3] = {}, ox[3] = {}, oy[3] = {};
        uint32_t w = 0, h = 0, w2 = 0, h2 = 0; // w2, h2: size of the output region when it differs
        uint8_t p1 = 0, p2 = 0;
        bool b1 = false, b2 = false;
        double a = 1, g = 1, cx = 0, cy = 0;
        uint32_t e1 = 0, e2 = 0;
        std::vector<uint8_t> table;
        std::vector<uint32_t> X, Y, vec0; // vec0: initial contents of a vector output
        bool inPlace = false; // out[0] is in[0]
        bool sixteen = false;

        // expected
        bool modelled = true;
        bool mustThrow = false;
        RImg exp[3]; // complete buffers of out[]
        bool retImg = false;
        RImg ret; // expected returned image (alignment 1)
        bool retVec = false;
        std::vector<uint32_t> vec;
        bool retNum = false;
        uint64_t num = 0;
        std::string text() const
        {
            char b[400];
            int n = snprintf( b, sizeof b, "%s form %d: region %ux%u", name( fn ), form + 1, w, h );
            for ( int i = 0; i < nin; ++i )
                n += snprintf( b + n, sizeof b - n, ", in%d %ux%ux%u/%u at %u,%u", i + 1, in[i].w, in[i].h, in[i].cc, in[i].al, ix[i], iy[i] );
            for ( int i = 0; i < nout; ++i )
                n += snprintf( b + n, sizeof b - n, ", out%d %ux%ux%u/%u at %u,%u", i + 1, out[i].w, out[i].h, out[i].cc, out[i].al, ox[i], oy[i] );
            if ( fn == Resize )
                n += snprintf( b + n, sizeof b - n, ", to %ux%u", w2, h2 );
            return b;
        }
    };

    struct Limits
    {
        uint32_t maxBytes = 3000; // per image
        uint32_t maxSide = 48;
        bool inPlace = true;
        uint32_t inPlaceOdds = 8; // one of so many calls
        bool flat = true; // very wide images
        bool tall = true;
    };

    inline uint32_t side( uint32_t maxSide )
    {
        switch ( sim_choose( 4 ) ) {
        case 0:
            return 1 + sim_choose( 4 );
        case 1:
            return 1 + sim_choose( 16 );
        default:
            return 1 + sim_choose( maxSide );
        }
    }

    inline uint32_t alignmentChoice()
    {
        static const uint8_t a[] = { 1, 4, 2, 8, 16, 3, 32 };
        return a[sim_choose( 2 ) ? sim_choose( 7 ) : 0];
    }

    inline uint32_t colours3()
    {
        static const uint8_t c[] = { 1, 3, 4 };
        return c[sim_choose( 3 )];
    }

    inline void place( RImg & img, uint32_t & x, uint32_t & y, uint32_t w, uint32_t h, uint32_t cc, bool roi )
    {
        uint32_t l = 0, r = 0, t = 0, b = 0;
        if ( roi ) {
            l = sim_choose( 3 ) ? sim_choose( 9 ) : 0;
            r = sim_choose( 3 ) ? sim_choose( 9 ) : 0;
            t = sim_choose( 3 ) ? sim_choose( 5 ) : 0;
            b = sim_choose( 3 ) ? sim_choose( 5 ) : 0;
        }
        img.make( l + w + r, t + h + b, cc, alignmentChoice() );
        x = l;
        y = t;
        const uint32_t mode = sim_choose( 6 );
        paint( img, sim_choose( 1u << 30 ), mode );
    }

    inline bool isPixelwise( int f )
    {
        return ( f <= Threshold2 );
    }

    inline void model( Case & c );

    // domain: the colour counts and forms which the functions support
    inline void generate( Case & c, int fn, const Limits & lim = Limits() )
    {
        c.fn = fn;
        c.form = int( sim_choose( 4 ) );
        uint32_t w, h;
        const uint32_t shape = sim_choose( 8 );
        if ( shape == 7 && lim.flat ) {
            w = 17 + sim_choose( sim_choose( 4 ) == 3 ? 800 : 240 );
            h = 1 + sim_choose( 3 );
        }
        else if ( shape == 6 && lim.tall ) {
            w = 1 + sim_choose( 3 );
            h = 17 + sim_choose( sim_choose( 4 ) == 3 ? 700 : 120 );
        }
        else {
            w = side( lim.maxSide );
            h = side( lim.maxSide );
        }
        // colour counts
        uint32_t ccIn = 1, ccOut = 1;
        c.nin = 1;
        c.nout = 1;
        const bool ret = ( c.form == 0 || c.form == 2 );
        switch ( fn ) {
        case AbsoluteDifference:
        case BitwiseAnd:
        case BitwiseOr:
        case BitwiseXor:
        case Maximum:
        case Minimum:
        case Subtract:
            c.nin = 2;
            ccIn = ccOut = colours3();
            break;
        case Invert:
        case Copy:
            ccIn = ccOut = colours3();
            break;
        case GammaCorrection:
        case LookupTable:
            ccIn = ccOut = ret ? 1 : colours3(); // the returned image is always gray-scale
            break;
        case ConvertToGrayScale:
            ccIn = sim_choose( 2 ) ? 3 : 1;
            break;
        case ConvertToRgb:
            ccIn = sim_choose( 2 ) ? 3 : 1;
            ccOut = 3;
            break;
        case ExtractChannel:
            ccIn = colours3();
            break;
        case RgbToBgr:
            ccIn = ccOut = 3;
            break;
        case Histogram:
        case ProjectionProfile:
            ccIn = colours3();
            c.nout = 0;
            break;
        case HistogramMask:
            ccIn = colours3();
            c.nin = 2;
            c.nout = 0;
            break;
        case IsEqual:
            c.nin = 2;
            c.nout = 0;
            ccIn = colours3();
            c.form &= 2;
            break;
        case Sum:
        case IsBinary:
            c.nout = 0;
            c.form &= 2;
            break;
        case Resize:
            ccIn = ccOut = colours3();
            break;
        case Merge:
            c.nin = 3;
            ccOut = 3;
            break;
        case Split:
            c.nout = 3;
            ccIn = 3;
            c.form |= 1;
            break;
        case Fill:
            c.nin = 0;
            ccOut = colours3();
            c.form = ( c.form & 2 ) | 1;
            break;
        case Accumulate:
            c.nout = 0;
            ccIn = colours3();
            c.form |= 1;
            break;
        case SetPixel1:
        case SetPixel2:
            c.nin = 0;
            c.form = 1;
            break;
        case GetPixel:
            c.nout = 0;
            c.form = 0;
            break;
        case GetThreshold:
            c.nin = c.nout = 0;
            c.form = 0;
            break;
        case RgbToRgba:
            ccIn = 3;
            ccOut = 4;
            break;
        case RgbaToRgb:
            ccIn = 4;
            ccOut = 3;
            break;
        case ReplaceChannel:
            ccOut = 3;
            c.form |= 1;
            break;
        case ConvertTo16Bit:
        case ConvertTo8Bit:
            ccIn = ccOut = colours3();
            c.sixteen = true;
            break;
        case BinaryDilate:
        case BinaryErode:
            c.nin = 0;
            c.form |= 1;
            c.e1 = sim_choose( 4 );
            c.e2 = sim_choose( 4 );
            if ( c.e1 + c.e2 == 0 )
                c.e1 = 1;
            break;
        case Rotate:
        case Shift:
            break;
        default:
            break;
        }
        const uint32_t m = ccIn > ccOut ? ccIn : ccOut;
        while ( w * h * m > lim.maxBytes ) {
            if ( w > h )
                w = ( w + 1 ) / 2;
            else
                h = ( h + 1 ) / 2;
        }
        const bool roi = c.form >= 2;
        c.w = w;
        c.h = h;
        c.w2 = w;
        c.h2 = h;
        for ( int i = 0; i < c.nin; ++i )
            place( c.in[i], c.ix[i], c.iy[i], w, h, fn == HistogramMask && i == 1 ? 1 : ccIn, roi );
        if ( fn == Resize ) {
            c.w2 = side( lim.maxSide );
            c.h2 = side( lim.maxSide );
            while ( c.w2 * c.h2 * ccOut > lim.maxBytes ) {
                c.w2 = ( c.w2 + 1 ) / 2;
                c.h2 = ( c.h2 + 1 ) / 2;
            }
        }
        if ( fn == Transpose ) {
            c.w2 = h;
            c.h2 = w;
        }
        const bool noOut = c.nout && ( c.form == 0 || c.form == 2 );
        if ( noOut ) {
            c.nout = 0;
            c.retImg = true;
        }
        for ( int i = 0; i < c.nout; ++i )
            place( c.out[i], c.ox[i], c.oy[i], c.w2, c.h2, ccOut, roi );
        if ( fn == Copy && c.form == 1 ) { // the whole image is assigned, row padding included
            c.out[0].make( w, h, ccOut, c.in[0].al );
            c.out[0].d = c.in[0].d;
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w * ccOut; ++x )
                    c.out[0].d[size_t( y ) * c.out[0].rs + x] ^= uint8_t( 1 + x * 7 );
        }
        if ( c.retImg )
            c.ret.make( c.w2, c.h2, ccOut, 1 );

        // parameters
        static const uint8_t edges[] = { 0, 1, 127, 128, 254, 255 };
        c.p1 = uint8_t( sim_choose( 4 ) ? sim_choose( 256 ) : edges[sim_choose( 6 )] );
        c.p2 = uint8_t( sim_choose( 4 ) ? sim_choose( 256 ) : edges[sim_choose( 6 )] );
        c.b1 = sim_choose( 2 );
        c.b2 = sim_choose( 2 );
        if ( fn == ExtractChannel )
            c.p1 = uint8_t( c.p1 % ccIn );
        if ( fn == ReplaceChannel )
            c.p1 = uint8_t( c.p1 % 3 );
        if ( fn == Threshold2 && c.p1 > c.p2 )
            std::swap( c.p1, c.p2 );
        if ( fn == GammaCorrection ) {
            c.a = sim_choose( 30 ) / 10.0;
            c.g = sim_choose( 30 ) / 10.0;
        }
        if ( fn == LookupTable ) {
            c.table.resize( 256 );
            Rng r( sim_choose( 1u << 30 ) );
            for ( uint8_t & b : c.table )
                b = uint8_t( r.next() );
        }
        if ( fn == Accumulate || ( ( fn == Histogram || fn == ProjectionProfile || fn == HistogramMask ) && ( c.form & 1 ) ) ) {
            size_t n = fn == Accumulate ? size_t( w ) * h * ccIn : sim_choose( 3 ) ? sim_choose( 300 ) : 0;
            Rng r( sim_choose( 1u << 30 ) );
            c.vec0.resize( n );
            for ( uint32_t & v : c.vec0 )
                v = r.below( 100000 );
        }
        if ( fn == IsEqual && sim_choose( 3 ) ) { // mostly equal
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    for ( uint32_t k = 0; k < ccIn; ++k )
                        c.in[1].at( c.ix[1] + x, c.iy[1] + y, k ) = c.in[0].at( c.ix[0] + x, c.iy[0] + y, k );
            if ( sim_choose( 2 ) )
                c.in[1].at( c.ix[1] + sim_choose( w ), c.iy[1] + sim_choose( h ), sim_choose( ccIn ) ) ^= uint8_t( 1u << sim_choose( 8 ) );
        }
        if ( fn == SetPixel2 || fn == SetPixel1 || fn == GetPixel ) {
            const uint32_t n = fn == SetPixel2 ? 1 + sim_choose( 12 ) : 1;
            for ( uint32_t i = 0; i < n; ++i ) {
                c.X.push_back( sim_choose( w ) );
                c.Y.push_back( sim_choose( h ) );
            }
        }
        if ( fn == GetThreshold ) {
            c.vec0.resize( 256 );
            Rng r( sim_choose( 1u << 30 ) );
            const uint32_t kinds = sim_choose( 3 );
            for ( uint32_t & v : c.vec0 )
                v = kinds == 0 ? r.below( 1000 ) : kinds == 1 ? ( r.below( 8 ) ? 0 : r.below( 1000 ) ) : 0;
            if ( kinds == 2 )
                c.vec0[r.below( 256 )] = 7;
        }
        if ( fn == Rotate || fn == Shift ) {
            c.a = ( int( sim_choose( 400 ) ) - 200 ) / 50.0;
            c.g = ( int( sim_choose( 400 ) ) - 200 ) / 50.0;
            c.cx = sim_choose( w + 1 );
            c.cy = sim_choose( h + 1 );
        }
        if ( lim.inPlace && c.nout == 1 && c.nin > 0 && isPixelwise( fn ) && c.out[0].cc == c.in[0].cc && sim_choose( lim.inPlaceOdds ) == lim.inPlaceOdds - 1 ) {
            c.inPlace = true;
            c.out[0] = c.in[0];
            c.ox[0] = c.ix[0];
            c.oy[0] = c.iy[0];
        }
        model( c );
    }

    inline void model( Case & c )
    {
        c.modelled = true;
        for ( int i = 0; i < c.nout; ++i )
            c.exp[i] = c.out[i];
        const RImg & a = c.in[0];
        const RImg & b = c.in[1];
        const uint32_t x0 = c.ix[0], y0 = c.iy[0], x1 = c.ix[1], y1 = c.iy[1];
        RImg & o = c.retImg ? c.ret : c.exp[0];
        const uint32_t ox = c.retImg ? 0 : c.ox[0], oy = c.retImg ? 0 : c.oy[0];
        const uint32_t w = c.w, h = c.h;
        std::vector<uint8_t> lut;
        switch ( c.fn ) {
        case GammaCorrection:
            lut.resize( 256 );
            for ( int i = 0; i < 256; ++i ) {
                const double v = c.a * std::pow( i / 255.0, c.g ) * 255 + 0.5;
                lut[i] = v < 256 ? uint8_t( v ) : 255;
            }
            break;
        case LookupTable:
            lut = c.table;
            break;
        case Invert:
            lut.resize( 256 );
            for ( int i = 0; i < 256; ++i )
                lut[i] = uint8_t( 255 - i );
            break;
        case Copy:
            lut.resize( 256 );
            for ( int i = 0; i < 256; ++i )
                lut[i] = uint8_t( i );
            break;
        case Threshold1:
            lut.resize( 256 );
            for ( int i = 0; i < 256; ++i )
                lut[i] = i < c.p1 ? 0 : 255;
            break;
        case Threshold2:
            lut.resize( 256 );
            for ( int i = 0; i < 256; ++i )
                lut[i] = i < c.p1 || i > c.p2 ? 0 : 255;
            break;
        case Normalize: {
            int mn = 255, mx = 0;
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    for ( uint32_t k = 0; k < a.cc; ++k ) {
                        const int v = a.at( x0 + x, y0 + y, k );
                        mn = v < mn ? v : mn;
                        mx = v > mx ? v : mx;
                    }
            lut.resize( 256 );
            for ( int i = 0; i < 256; ++i )
                lut[i] = mn == mx || ( mn == 0 && mx == 255 ) ? uint8_t( i ) : i < mn || i > mx ? 0 : uint8_t( ( i - mn ) * ( 255.0 / ( mx - mn ) ) + 0.5 );
            break;
        }
        default:
            break;
        }
        if ( !lut.empty() ) {
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    for ( uint32_t k = 0; k < a.cc; ++k )
                        o.at( ox + x, oy + y, k ) = lut[a.at( x0 + x, y0 + y, k )];
            return;
        }
        switch ( c.fn ) {
        case AbsoluteDifference:
        case BitwiseAnd:
        case BitwiseOr:
        case BitwiseXor:
        case Maximum:
        case Minimum:
        case Subtract:
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    for ( uint32_t k = 0; k < a.cc; ++k ) {
                        const int p = a.at( x0 + x, y0 + y, k ), q = b.at( x1 + x, y1 + y, k );
                        int r = 0;
                        switch ( c.fn ) {
                        case AbsoluteDifference:
                            r = p > q ? p - q : q - p;
                            break;
                        case BitwiseAnd:
                            r = p & q;
                            break;
                        case BitwiseOr:
                            r = p | q;
                            break;
                        case BitwiseXor:
                            r = p ^ q;
                            break;
                        case Maximum:
                            r = p > q ? p : q;
                            break;
                        case Minimum:
                            r = p < q ? p : q;
                            break;
                        default:
                            r = p > q ? p - q : 0;
                        }
                        o.at( ox + x, oy + y, k ) = uint8_t( r );
                    }
            break;
        case ConvertToGrayScale:
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x ) {
                    int s = 0;
                    for ( uint32_t k = 0; k < a.cc; ++k )
                        s += a.at( x0 + x, y0 + y, k );
                    o.at( ox + x, oy + y, 0 ) = uint8_t( s / int( a.cc ) );
                }
            break;
        case ConvertToRgb:
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    for ( uint32_t k = 0; k < 3; ++k )
                        o.at( ox + x, oy + y, k ) = a.at( x0 + x, y0 + y, a.cc == 3 ? k : 0 );
            break;
        case ExtractChannel:
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    o.at( ox + x, oy + y, 0 ) = a.at( x0 + x, y0 + y, c.p1 );
            break;
        case RgbToBgr:
        case RgbToRgba:
        case RgbaToRgb:
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    for ( uint32_t k = 0; k < o.cc; ++k )
                        o.at( ox + x, oy + y, k ) = c.fn == RgbToBgr ? a.at( x0 + x, y0 + y, 2 - k ) : k == 3 ? 255 : a.at( x0 + x, y0 + y, k );
            break;
        case Flip:
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    o.at( ox + ( c.b1 ? w - 1 - x : x ), oy + ( c.b2 ? h - 1 - y : y ), 0 ) = a.at( x0 + x, y0 + y, 0 );
            break;
        case Transpose:
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    o.at( ox + y, oy + x, 0 ) = a.at( x0 + x, y0 + y, 0 );
            break;
        case Resize:
            for ( uint32_t y = 0; y < c.h2; ++y )
                for ( uint32_t x = 0; x < c.w2; ++x )
                    for ( uint32_t k = 0; k < a.cc; ++k )
                        o.at( ox + x, oy + y, k ) = a.at( x0 + x * w / c.w2, y0 + y * h / c.h2, k );
            break;
        case Merge:
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    for ( uint32_t k = 0; k < 3; ++k )
                        o.at( ox + x, oy + y, k ) = c.in[k].at( c.ix[k] + x, c.iy[k] + y, 0 );
            break;
        case Split:
            for ( uint32_t k = 0; k < 3; ++k )
                for ( uint32_t y = 0; y < h; ++y )
                    for ( uint32_t x = 0; x < w; ++x )
                        c.exp[k].at( c.ox[k] + x, c.oy[k] + y, 0 ) = a.at( x0 + x, y0 + y, k );
            break;
        case Histogram:
        case HistogramMask:
            c.retVec = true;
            c.vec.assign( 256 * a.cc, 0 );
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    if ( c.fn == Histogram || b.at( x1 + x, y1 + y, 0 ) )
                        for ( uint32_t k = 0; k < a.cc; ++k )
                            ++c.vec[a.at( x0 + x, y0 + y, k ) * a.cc + k];
            break;
        case ProjectionProfile:
            c.retVec = true;
            c.vec.assign( c.b1 ? w * a.cc : h, 0 );
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    for ( uint32_t k = 0; k < a.cc; ++k )
                        c.vec[c.b1 ? x * a.cc + k : y] += a.at( x0 + x, y0 + y, k );
            break;
        case Accumulate:
            c.retVec = true;
            c.vec = c.vec0;
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    for ( uint32_t k = 0; k < a.cc; ++k )
                        c.vec[( y * w + x ) * a.cc + k] += a.at( x0 + x, y0 + y, k );
            break;
        case IsEqual:
            c.retNum = true;
            c.num = 1;
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    for ( uint32_t k = 0; k < a.cc; ++k )
                        if ( a.at( x0 + x, y0 + y, k ) != b.at( x1 + x, y1 + y, k ) )
                            c.num = 0;
            break;
        case Sum:
            c.retNum = true;
            c.num = 0;
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    c.num += a.at( x0 + x, y0 + y, 0 );
            break;
        case IsBinary: {
            c.retNum = true;
            bool seen[256] = {};
            int n = 0;
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    if ( !seen[a.at( x0 + x, y0 + y, 0 )] ) {
                        seen[a.at( x0 + x, y0 + y, 0 )] = true;
                        ++n;
                    }
            c.num = n < 3;
            break;
        }
        case Fill:
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    for ( uint32_t k = 0; k < o.cc; ++k )
                        o.at( ox + x, oy + y, k ) = c.p1;
            break;
        case SetPixel1:
        case SetPixel2:
            for ( size_t i = 0; i < c.X.size(); ++i )
                o.at( c.X[i], c.Y[i], 0 ) = c.p1;
            break;
        case GetPixel:
            c.retNum = true;
            c.num = a.at( c.X[0], c.Y[0], 0 );
            break;
        case ReplaceChannel:
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    o.at( ox + x, oy + y, c.p1 ) = a.at( x0 + x, y0 + y, 0 );
            break;
        default: // no independent model: the scenario compares with a call made alone
            c.modelled = false;
            c.retNum = c.fn == GetThreshold;
            break;
        }
    }

    // makes the arguments of a case invalid in one way; the call must throw (and touch nothing)
    inline bool spoil( Case & c )
    {
        if ( c.fn == GetThreshold || c.fn == SetPixel1 || c.fn == SetPixel2 || c.fn == GetPixel || c.inPlace )
            return false;
        c.mustThrow = true;
        const uint32_t k = sim_choose( 9 );
        const int i = c.nin ? int( sim_choose( uint32_t( c.nin ) ) ) : 0;
        switch ( k ) {
        case 0:
            if ( c.nin && c.form >= 2 ) { // region leaves the image
                if ( sim_choose( 2 ) )
                    c.ix[i] = c.in[i].w - c.w + 1 + sim_choose( 3 );
                else
                    c.iy[i] = c.in[i].h - c.h + 1 + sim_choose( 3 );
                return true;
            }
            break;
        case 1:
            if ( c.nout && c.form >= 2 ) {
                if ( sim_choose( 2 ) )
                    c.ox[0] = c.out[0].w - c.w2 + 1 + sim_choose( 3 );
                else
                    c.oy[0] = c.out[0].h - c.h2 + 1 + sim_choose( 3 );
                return true;
            }
            break;
        case 2:
            if ( c.form >= 2 ) { // empty region
                if ( sim_choose( 2 ) )
                    c.w = 0;
                else
                    c.h = 0;
                return true;
            }
            break;
        case 3:
            if ( c.form >= 2 && c.nin ) { // start + width overflows
                c.ix[i] = 0u - c.w;
                return true;
            }
            break;
        case 4:
            if ( c.nin ) { // empty image
                c.in[i] = RImg();
                return true;
            }
            break;
        case 5:
            if ( c.nout ) {
                c.out[0] = RImg();
                c.exp[0] = RImg();
                return true;
            }
            break;
        case 6:
            if ( c.fn == LookupTable ) {
                c.table.resize( sim_choose( 2 ) ? 255 : 0 );
                return true;
            }
            if ( c.fn == GammaCorrection ) {
                ( sim_choose( 2 ) ? c.a : c.g ) = -0.5;
                return true;
            }
            if ( c.fn == ExtractChannel ) {
                c.p1 = uint8_t( c.in[0].cc + sim_choose( 3 ) );
                return true;
            }
            if ( c.fn == Threshold2 ) {
                c.p1 = 200;
                c.p2 = 100;
                return true;
            }
            break;
        case 7:
            if ( c.nout && c.nin ) { // another number of colours
                const int j = int( sim_choose( uint32_t( c.nout ) ) );
                RImg o = c.out[j];
                static const uint8_t to[] = { 1, 3, 4 };
                uint8_t cc = to[sim_choose( 3 )];
                if ( cc == o.cc )
                    cc = cc == 3 ? 1 : 3;
                c.out[j].make( o.w, o.h, cc, o.al );
                c.exp[j] = c.out[j];
                return true;
            }
            break;
        default:
            if ( c.nout && c.form == 1 && c.nin && c.fn != Transpose && c.fn != Resize ) { // sizes differ
                RImg o = c.out[0];
                c.out[0].make( o.w + 1, o.h, o.cc, o.al );
                c.exp[0] = c.out[0];
                return true;
            }
            if ( c.nin == 2 && c.form < 2 ) {
                RImg o = c.in[1];
                c.in[1].make( o.w, o.h + 1, o.cc, o.al );
                return true;
            }
            break;
        }
        c.mustThrow = false;
        return false;
    }

    // the real objects of a case
    struct Live
    {
        penguinV::Image in[3], out[3];
        penguinV::Image16Bit in16, out16;
        // results
        penguinV::Image img;
        penguinV::Image16Bit img16;
        std::vector<uint32_t> vec;
        uint64_t num = 0;

        static void load( penguinV::Image & i, const RImg & r )
        {
            i = penguinV::Image( r.w, r.h, uint8_t( r.cc ), uint8_t( r.al ) );
            store( i, r );
        }
        static void store( penguinV::Image & i, const RImg & r )
        {
            if ( r.d.empty() )
                return;
            if ( i.empty() || i.width() != r.w || i.height() != r.h || i.colorCount() != r.cc || i.rowSize() != r.rs )
                sim_fail( "image-geometry", "a new image of %ux%ux%u aligned to %u has %ux%ux%u and row size %u", r.w, r.h, r.cc, r.al, i.width(), i.height(),
                          i.colorCount(), i.rowSize() );
            uint8_t * p = i.data();
            sim_write( p, r.d.size() );
            SimRt rt;
            memcpy( p, r.d.data(), r.d.size() );
        }
        static void load16( penguinV::Image16Bit & i, const RImg & r, uint32_t extra )
        {
            i = penguinV::Image16Bit( r.w, r.h, uint8_t( r.cc ), uint8_t( r.al ) );
            uint16_t * p = i.data();
            sim_write( p, r.d.size() * 2 );
            SimRt rt;
            for ( size_t k = 0; k < r.d.size(); ++k )
                p[k] = uint16_t( r.d[k] * 256u + ( ( k * 37 + extra ) & 255 ) );
        }
        void build( const Case & c )
        {
            for ( int i = 0; i < c.nin; ++i )
                load( in[i], c.in[i] );
            if ( !c.inPlace )
                for ( int i = 0; i < c.nout; ++i )
                    load( out[i], c.out[i] );
            if ( c.sixteen ) {
                if ( c.fn == ConvertTo8Bit )
                    load16( in16, c.in[0], c.p1 );
                else if ( c.nout )
                    load16( out16, c.out[0], c.p1 );
            }
            vec = c.vec0;
        }
        Live * inputsOf = nullptr; // shares the inputs of another call
        penguinV::Image & i( int k )
        {
            return inputsOf ? inputsOf->in[k] : in[k];
        }
        penguinV::Image & o( const Case & c, int i )
        {
            return c.inPlace ? in[0] : out[i];
        }
    };

    inline bool bufferEquals( const penguinV::Image & i, const RImg & r, std::string & why )
    {
        if ( r.d.empty() )
            return i.empty();
        if ( i.empty() || i.width() != r.w || i.height() != r.h || i.colorCount() != r.cc || i.rowSize() != r.rs ) {
            char b[160];
            snprintf( b, sizeof b, "geometry %ux%ux%u row %u instead of %ux%ux%u row %u", i.width(), i.height(), i.colorCount(), i.rowSize(), r.w, r.h, r.cc, r.rs );
            why = b;
            return false;
        }
        const uint8_t * p = i.data();
        sim_read( p, r.d.size() );
        SimRt rt;
        for ( size_t k = 0; k < r.d.size(); ++k )
            if ( p[k] != r.d[k] ) {
                char b[160];
                const size_t y = k / r.rs, x = k % r.rs;
                snprintf( b, sizeof b, "row %zu byte %zu is %u instead of %u%s", y, x, p[k], r.d[k], x >= r.w * r.cc ? " (row padding)" : "" );
                why = b;
                return false;
            }
        return true;
    }

    // pixels only: a returned image may have any row size
    inline bool pixelsEqual( const penguinV::Image & i, const RImg & r, std::string & why )
    {
        if ( i.empty() || i.width() != r.w || i.height() != r.h || i.colorCount() != r.cc || i.rowSize() < r.w * r.cc ) {
            char b[160];
            snprintf( b, sizeof b, "returned image is %ux%ux%u instead of %ux%ux%u", i.width(), i.height(), i.colorCount(), r.w, r.h, r.cc );
            why = b;
            return false;
        }
        const uint8_t * p = i.data();
        for ( uint32_t y = 0; y < r.h; ++y )
            sim_read( p + size_t( y ) * i.rowSize(), r.w * r.cc );
        const uint32_t rs = i.rowSize();
        SimRt rt;
        for ( uint32_t y = 0; y < r.h; ++y )
            for ( uint32_t x = 0; x < r.w * r.cc; ++x )
                if ( p[size_t( y ) * rs + x] != r.d[size_t( y ) * r.rs + x] ) {
                    char b[160];
                    snprintf( b, sizeof b, "row %u byte %u of the returned image is %u instead of %u", y, x, p[size_t( y ) * rs + x], r.d[size_t( y ) * r.rs + x] );
                    why = b;
                    return false;
                }
        return true;
    }

    inline bool vecEquals( const std::vector<uint32_t> & v, const std::vector<uint32_t> & e, std::string & why )
    {
        if ( !v.empty() )
            sim_read( v.data(), v.size() * 4 );
        SimRt rt;
        if ( v.size() != e.size() ) {
            why = "array of " + std::to_string( v.size() ) + " instead of " + std::to_string( e.size() ) + " values";
            return false;
        }
        for ( size_t i = 0; i < v.size(); ++i )
            if ( v[i] != e[i] ) {
                why = "value " + std::to_string( i ) + " is " + std::to_string( v[i] ) + " instead of " + std::to_string( e[i] );
                return false;
            }
        return true;
    }

    // inputs must be as they were; outputs exact
    inline bool inputsIntact( const Case & c, Live & l, std::string & why )
    {
        for ( int i = c.inPlace ? 1 : 0; i < c.nin; ++i )
            if ( !( c.sixteen && c.fn == ConvertTo8Bit ) && !bufferEquals( l.i( i ), c.in[i], why ) ) {
                why = "input " + std::to_string( i + 1 ) + " was changed: " + why;
                return false;
            }
        return true;
    }

    inline bool resultsExact( const Case & c, Live & l, std::string & why )
    {
        const bool assigned = c.fn == Copy && c.form == 1; // a new image: any row size
        for ( int i = 0; i < c.nout; ++i )
            if ( !( assigned ? pixelsEqual( l.o( c, i ), c.exp[i], why ) : bufferEquals( l.o( c, i ), c.exp[i], why ) ) ) {
                why = "output " + std::to_string( i + 1 ) + ": " + why;
                return false;
            }
        if ( c.retImg && !pixelsEqual( l.img, c.ret, why ) )
            return false;
        if ( c.retVec && !vecEquals( l.vec, c.vec, why ) )
            return false;
        if ( c.retNum && l.num != c.num ) {
            why = "result is " + std::to_string( l.num ) + " instead of " + std::to_string( c.num );
            return false;
        }
        return true;
    }

    // after a failed call: nothing outside the output region has changed
    inline bool outsideIntact( const Case & c, Live & l, std::string & why )
    {
        for ( int i = 0; i < c.nout; ++i ) {
            RImg e = c.out[i];
            const penguinV::Image & o = l.o( c, i );
            if ( e.d.empty() || o.empty() || ( c.fn == Copy && c.form == 1 ) )
                continue;
            SimRt rt;
            for ( uint32_t y = 0; y < c.h2; ++y )
                for ( uint32_t x = 0; x < c.w2 * e.cc; ++x ) {
                    const size_t k = size_t( c.oy[i] + y ) * e.rs + c.ox[i] * e.cc + x;
                    if ( k < e.d.size() && c.ox[i] * e.cc + x < e.rs )
                        e.d[k] = o.data()[k];
                }
            sim_rt_leave();
            const bool ok = bufferEquals( o, e, why );
            sim_rt_enter();
            if ( !ok ) {
                why = "output " + std::to_string( i + 1 ) + " changed outside of the region: " + why;
                return false;
            }
        }
        return true;
    }
}
