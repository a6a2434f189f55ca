// void exec( const ops::Case &, ops::Live & ) for the namespace NS. Defines which extend the set of functions:
// OPS_SUM OPS_RESIZE OPS_MERGE OPS_COPY OPS_ACCUMULATE OPS_SETPIXEL OPS_GETPIXEL OPS_GETTHRESHOLD OPS_EXTRA; OPS_SIMD: only those of the vectorised set
#define I0 l.i( 0 )
#define I1 l.i( 1 )
#define I2 l.i( 2 )
#define O0 l.o( c, 0 )
#define XY0 c.ix[0], c.iy[0]
#define XY1 c.ix[1], c.iy[1]
#define XY2 c.ix[2], c.iy[2]
#define OXY0 c.ox[0], c.oy[0]
#define WH c.w, c.h
#define CALL2( F )                                                                                                                                   \
    switch ( c.form ) {                                                                                                                              \
    case 0:                                                                                                                                          \
        l.img = NS::F( I0, I1 );                                                                                                                     \
        break;                                                                                                                                       \
    case 1:                                                                                                                                          \
        NS::F( I0, I1, O0 );                                                                                                                         \
        break;                                                                                                                                       \
    case 2:                                                                                                                                          \
        l.img = NS::F( I0, XY0, I1, XY1, WH );                                                                                                       \
        break;                                                                                                                                       \
    default:                                                                                                                                         \
        NS::F( I0, XY0, I1, XY1, O0, OXY0, WH );                                                                                                     \
    }                                                                                                                                                \
    break;
#define CALL1( F, ... )                                                                                                                              \
    switch ( c.form ) {                                                                                                                              \
    case 0:                                                                                                                                          \
        l.img = NS::F( I0, ##__VA_ARGS__ );                                                                                                          \
        break;                                                                                                                                       \
    case 1:                                                                                                                                          \
        NS::F( I0, O0, ##__VA_ARGS__ );                                                                                                              \
        break;                                                                                                                                       \
    case 2:                                                                                                                                          \
        l.img = NS::F( I0, XY0, WH, ##__VA_ARGS__ );                                                                                                 \
        break;                                                                                                                                       \
    default:                                                                                                                                         \
        NS::F( I0, XY0, O0, OXY0, WH, ##__VA_ARGS__ );                                                                                               \
    }                                                                                                                                                \
    break;

static void exec( const ops::Case & c, ops::Live & l )
{
    switch ( c.fn ) {
    case ops::AbsoluteDifference:
        CALL2( AbsoluteDifference )
    case ops::BitwiseAnd:
        CALL2( BitwiseAnd )
    case ops::BitwiseOr:
        CALL2( BitwiseOr )
    case ops::BitwiseXor:
        CALL2( BitwiseXor )
    case ops::Maximum:
        CALL2( Maximum )
    case ops::Minimum:
        CALL2( Minimum )
    case ops::Subtract:
        CALL2( Subtract )
    case ops::Invert:
        CALL1( Invert )
    case ops::ConvertToRgb:
        CALL1( ConvertToRgb )
    case ops::Flip:
        CALL1( Flip, c.b1, c.b2 )
    case ops::Threshold1:
        CALL1( Threshold, c.p1 )
    case ops::Threshold2:
        CALL1( Threshold, c.p1, c.p2 )
    case ops::ProjectionProfile:
        switch ( c.form ) {
        case 0:
            l.vec = NS::ProjectionProfile( I0, c.b1 );
            break;
        case 1:
            NS::ProjectionProfile( I0, c.b1, l.vec );
            break;
        case 2:
            l.vec = NS::ProjectionProfile( I0, XY0, WH, c.b1 );
            break;
        default:
            NS::ProjectionProfile( I0, XY0, WH, c.b1, l.vec );
        }
        break;
#ifdef OPS_BGR
    case ops::RgbToBgr:
        CALL1( RgbToBgr )
#endif
#ifndef OPS_SIMD
    case ops::GammaCorrection:
        CALL1( GammaCorrection, c.a, c.g )
    case ops::LookupTable:
        CALL1( LookupTable, c.table )
#ifndef OPS_NO_NORMALIZE
    case ops::Normalize:
        CALL1( Normalize )
#endif
    case ops::ConvertToGrayScale:
        CALL1( ConvertToGrayScale )
    case ops::ExtractChannel:
        CALL1( ExtractChannel, c.p1 )
#ifndef OPS_NO_TRANSPOSE
    case ops::Transpose:
        CALL1( Transpose )
#endif
    case ops::Histogram:
        switch ( c.form ) {
        case 0:
            l.vec = NS::Histogram( I0 );
            break;
        case 1:
            NS::Histogram( I0, l.vec );
            break;
        case 2:
            l.vec = NS::Histogram( I0, XY0, WH );
            break;
        default:
            NS::Histogram( I0, XY0, WH, l.vec );
        }
        break;
    case ops::IsEqual:
        l.num = c.form < 2 ? NS::IsEqual( I0, I1 ) : NS::IsEqual( I0, XY0, I1, XY1, WH );
        break;
#endif
#ifdef OPS_SUM
    case ops::Sum:
        l.num = c.form < 2 ? NS::Sum( I0 ) : NS::Sum( I0, XY0, WH );
        break;
#endif
#ifdef OPS_RESIZE
    case ops::Resize:
        switch ( c.form ) {
        case 0:
            l.img = NS::Resize( I0, c.w2, c.h2 );
            break;
        case 1:
            NS::Resize( I0, O0 );
            break;
        case 2:
            l.img = NS::Resize( I0, XY0, WH, c.w2, c.h2 );
            break;
        default:
            NS::Resize( I0, XY0, WH, O0, OXY0, c.w2, c.h2 );
        }
        break;
#endif
#ifdef OPS_MERGE
    case ops::Merge:
        switch ( c.form ) {
        case 0:
            l.img = NS::Merge( I0, I1, I2 );
            break;
        case 1:
            NS::Merge( I0, I1, I2, O0 );
            break;
        case 2:
            l.img = NS::Merge( I0, XY0, I1, XY1, I2, XY2, WH );
            break;
        default:
            NS::Merge( I0, XY0, I1, XY1, I2, XY2, O0, OXY0, WH );
        }
        break;
    case ops::Split:
        if ( c.form < 2 )
            NS::Split( I0, l.out[0], l.out[1], l.out[2] );
        else
            NS::Split( I0, XY0, l.out[0], OXY0, l.out[1], c.ox[1], c.oy[1], l.out[2], c.ox[2], c.oy[2], WH );
        break;
#endif
#ifdef OPS_COPY
    case ops::Copy:
        switch ( c.form ) {
        case 0:
        case 2:
            l.img = NS::Copy( I0, XY0, WH );
            break;
        case 1:
            NS::Copy( I0, O0 );
            break;
        default:
            NS::Copy( I0, XY0, O0, OXY0, WH );
        }
        break;
    case ops::Fill: // the whole image includes the padding
        if ( c.form < 2 && O0.rowSize() == O0.width() * O0.colorCount() )
            NS::Fill( O0, c.p1 );
        else
            NS::Fill( O0, OXY0, WH, c.p1 );
        break;
#endif
#ifdef OPS_ACCUMULATE
    case ops::Accumulate:
        if ( c.form < 2 )
            NS::Accumulate( I0, l.vec );
        else
            NS::Accumulate( I0, XY0, WH, l.vec );
        break;
#endif
#ifdef OPS_SETPIXEL
    case ops::SetPixel1:
        NS::SetPixel( O0, c.X[0], c.Y[0], c.p1 );
        break;
    case ops::SetPixel2:
        NS::SetPixel( O0, c.X, c.Y, c.p1 );
        break;
#endif
#ifdef OPS_GETPIXEL
    case ops::GetPixel:
        l.num = NS::GetPixel( I0, c.X[0], c.Y[0] );
        break;
#endif
#ifdef OPS_GETTHRESHOLD
    case ops::GetThreshold:
        l.num = NS::GetThreshold( l.vec );
        break;
#endif
#ifdef OPS_16BIT
    case ops::ConvertTo16Bit:
        switch ( c.form ) {
        case 0:
            l.img16 = NS::ConvertTo16Bit( I0 );
            break;
        case 1:
            NS::ConvertTo16Bit( I0, l.out16 );
            break;
        case 2:
            l.img16 = NS::ConvertTo16Bit( I0, XY0, WH );
            break;
        default:
            NS::ConvertTo16Bit( I0, XY0, l.out16, OXY0, WH );
        }
        break;
    case ops::ConvertTo8Bit:
        switch ( c.form ) {
        case 0:
            l.img = NS::ConvertTo8Bit( l.in16 );
            break;
        case 1:
            NS::ConvertTo8Bit( l.in16, O0 );
            break;
        case 2:
            l.img = NS::ConvertTo8Bit( l.in16, XY0, WH );
            break;
        default:
            NS::ConvertTo8Bit( l.in16, XY0, O0, OXY0, WH );
        }
        break;
#endif
#ifdef OPS_EXTRA
    case ops::RgbToRgba:
        CALL1( RgbToRgba )
    case ops::RgbaToRgb:
        CALL1( RgbaToRgb )
    case ops::ReplaceChannel:
        if ( c.form < 2 )
            NS::ReplaceChannel( I0, O0, c.p1 );
        else
            NS::ReplaceChannel( I0, XY0, O0, OXY0, WH, c.p1 );
        break;
    case ops::HistogramMask:
        switch ( c.form ) {
        case 0:
            l.vec = NS::Histogram( I0, I1 );
            break;
        case 1:
            NS::Histogram( I0, I1, l.vec );
            break;
        case 2:
            l.vec = NS::Histogram( I0, XY0, I1, XY1, WH );
            break;
        default:
            NS::Histogram( I0, XY0, I1, XY1, WH, l.vec );
        }
        break;
    case ops::IsBinary:
        l.num = c.form < 2 ? NS::IsBinary( I0 ) : NS::IsBinary( I0, XY0, WH );
        break;
    case ops::BinaryDilate:
        if ( c.form < 2 )
            NS::BinaryDilate( O0, c.e1, c.e2 );
        else
            NS::BinaryDilate( O0, OXY0, WH, c.e1, c.e2 );
        break;
    case ops::BinaryErode:
        if ( c.form < 2 )
            NS::BinaryErode( O0, c.e1, c.e2 );
        else
            NS::BinaryErode( O0, OXY0, WH, c.e1, c.e2 );
        break;
    case ops::Rotate:
        switch ( c.form ) {
        case 0:
            l.img = NS::Rotate( I0, c.cx, c.cy, c.a );
            break;
        case 1:
            NS::Rotate( I0, c.cx, c.cy, O0, c.cx, c.cy, c.a );
            break;
        case 2:
            l.img = NS::Rotate( I0, XY0, c.cx, c.cy, WH, c.a );
            break;
        default:
            NS::Rotate( I0, XY0, c.cx, c.cy, O0, OXY0, c.cx, c.cy, WH, c.a );
        }
        break;
    case ops::Shift:
        CALL1( Shift, c.a, c.g )
#endif
    default:
        sim_fail( "scenario", "function %d is not part of this set", c.fn );
    }
}
#undef I0
#undef I1
#undef I2
#undef O0
#undef XY0
#undef XY1
#undef XY2
#undef OXY0
#undef WH
#undef CALL2
#undef CALL1
