// Pictures as a user sees them, and independent readers and writers of the file formats. Everything here runs outside of the simulation (SimRt).
#pragma once
#include "disk.h"
#include <csetjmp>
#include <cstdio>
#include <cstring>
#include <png.h>
#include <jpeglib.h>
#include <jerror.h>

namespace pic
{
    struct Rng
    {
        uint64_t s;
        explicit Rng( uint64_t seed )
            : s( seed * 0x9E3779B97F4A7C15ull + 0x632BE59BD9B4E019ull )
        {}
        uint32_t below( uint32_t n )
        {
            uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
            z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
            z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
            return uint32_t( ( z ^ ( z >> 31 ) ) % n );
        }
    };

    struct Pic // colours in the order they have in memory; rows are not padded
    {
        uint32_t w = 0, h = 0, cc = 0, depth = 1; // depth: bytes per value
        DiskBytes px;
        size_t row() const
        {
            return size_t( w ) * cc * depth;
        }
        bool empty() const
        {
            return px.empty();
        }
        void make( uint32_t w_, uint32_t h_, uint32_t cc_, uint32_t depth_ = 1 )
        {
            w = w_;
            h = h_;
            cc = cc_;
            depth = depth_;
            px.assign( row() * h, 0 );
        }
    };

    // smooth: what a lossy format can keep
    inline void paint( Pic & p, uint32_t seed, bool smooth )
    {
        Rng r( seed );
        if ( !smooth ) {
            const uint32_t mode = r.below( 4 );
            const uint8_t base = uint8_t( r.below( 256 ) );
            for ( uint8_t & b : p.px )
                b = uint8_t( mode == 0 ? r.below( 256 ) : mode == 1 ? ( r.below( 2 ) ? 255 : 0 ) : mode == 2 ? base + r.below( 5 ) : r.below( 256 ) );
            return;
        }
        int a[5], b[5], c[5];
        for ( int k = 0; k < 5; ++k ) {
            a[k] = int( r.below( 256 ) );
            b[k] = int( r.below( 5 ) ) - 2;
            c[k] = int( r.below( 5 ) ) - 2;
        }
        for ( uint32_t y = 0; y < p.h; ++y )
            for ( uint32_t x = 0; x < p.w; ++x )
                for ( uint32_t k = 0; k < p.cc; ++k ) {
                    int v = a[k % 5] + b[k % 5] * int( x ) + c[k % 5] * int( y );
                    v = v < 0 ? 0 : v > 255 ? 255 : v;
                    p.px[( size_t( y ) * p.w + x ) * p.cc + k] = uint8_t( v );
                }
    }

    inline uint32_t u32( const DiskBytes & d, size_t o )
    {
        return uint32_t( d[o] ) | uint32_t( d[o + 1] ) << 8 | uint32_t( d[o + 2] ) << 16 | uint32_t( d[o + 3] ) << 24;
    }
    inline uint32_t u16( const DiskBytes & d, size_t o )
    {
        return uint32_t( d[o] ) | uint32_t( d[o + 1] ) << 8;
    }
    inline void w32( DiskBytes & d, size_t o, uint32_t v )
    {
        for ( int i = 0; i < 4; ++i )
            d[o + size_t( i )] = uint8_t( v >> ( 8 * i ) );
    }
    inline void w16( DiskBytes & d, size_t o, uint32_t v )
    {
        d[o] = uint8_t( v );
        d[o + 1] = uint8_t( v >> 8 );
    }

    // ---------------------------------------------------------------- BMP
    inline bool readBmp( const DiskBytes & d, Pic & p )
    {
        if ( d.size() < 26 || d[0] != 'B' || d[1] != 'M' )
            return false;
        const uint64_t off = u32( d, 10 );
        const uint32_t dib = u32( d, 14 );
        int64_t w, h;
        uint32_t bits;
        if ( dib == 12 ) {
            w = u16( d, 18 );
            h = u16( d, 20 );
            bits = u16( d, 24 );
        }
        else if ( dib == 40 && d.size() >= 54 ) {
            w = int32_t( u32( d, 18 ) );
            h = int32_t( u32( d, 22 ) );
            bits = u16( d, 28 );
            if ( u32( d, 30 ) != 0 && u32( d, 30 ) != 3 ) // compressed (3: bit fields)
                return false;
        }
        else
            return false;
        const bool bottomUp = h > 0;
        if ( h < 0 )
            h = -h;
        if ( w <= 0 || h <= 0 || ( bits != 8 && bits != 24 && bits != 32 ) || off < 14 + dib )
            return false;
        const uint64_t row = ( uint64_t( w ) * ( bits / 8 ) + 3 ) / 4 * 4;
        if ( row > d.size() || uint64_t( h ) > d.size() || off + row * uint64_t( h ) > d.size() )
            return false;
        bool pal = false;
        if ( bits == 8 && off - 14 - dib == 1024 )
            for ( uint32_t i = 0; i < 256; ++i )
                pal = pal || u32( d, 14 + dib + i * 4 ) != i * 0x010101u;
        const uint32_t cc = pal ? 3 : bits / 8;
        p.make( uint32_t( w ), uint32_t( h ), cc );
        for ( uint32_t y = 0; y < p.h; ++y ) {
            const uint8_t * r = d.data() + off + row * ( bottomUp ? p.h - 1 - y : y );
            if ( !pal )
                memcpy( &p.px[y * p.row()], r, p.row() );
            else
                for ( uint32_t x = 0; x < p.w; ++x )
                    memcpy( &p.px[y * p.row() + x * 3], d.data() + 14 + dib + 4 * r[x], 3 );
        }
        return true;
    }
    // variants of valid files; exp: what a reader has to see
    inline DiskBytes writeBmp( const Pic & p, bool core, bool topDown, bool noImageSize, const uint8_t * palette, uint32_t gap, Pic & exp )
    {
        const bool pal = palette && p.cc == 1;
        const uint32_t dib = core ? 12 : 40, off = 14 + dib + ( pal ? 1024 : gap );
        const uint32_t row = ( p.w * p.cc + 3 ) / 4 * 4;
        DiskBytes d( off + row * p.h, 0 );
        d[0] = 'B';
        d[1] = 'M';
        w32( d, 2, uint32_t( d.size() ) );
        w32( d, 10, off );
        w32( d, 14, dib );
        if ( core ) {
            w16( d, 18, p.w );
            w16( d, 20, p.h );
            w16( d, 22, 1 );
            w16( d, 24, p.cc * 8 );
            topDown = false;
        }
        else {
            w32( d, 18, p.w );
            w32( d, 22, topDown ? uint32_t( -int32_t( p.h ) ) : p.h );
            w16( d, 26, 1 );
            w16( d, 28, p.cc * 8 );
            w32( d, 34, noImageSize ? 0 : row * p.h );
        }
        if ( pal )
            for ( int i = 0; i < 256; ++i )
                memcpy( &d[14 + dib + size_t( i ) * 4], palette + i * 3, 3 );
        for ( uint32_t y = 0; y < p.h; ++y )
            memcpy( &d[off + row * ( topDown ? y : p.h - 1 - y )], &p.px[y * p.row()], p.row() );
        exp = p;
        if ( pal ) {
            exp.make( p.w, p.h, 3 );
            for ( size_t i = 0; i < p.px.size(); ++i )
                memcpy( &exp.px[i * 3], palette + p.px[i] * 3, 3 );
        }
        return d;
    }

    // ---------------------------------------------------------------- PNG
    struct PngIo
    {
        const DiskBytes * in = nullptr;
        DiskBytes * out = nullptr;
        size_t pos = 0;
        jmp_buf jb;
    };
    inline void pngError( png_structp png, png_const_charp )
    {
        longjmp( static_cast<PngIo *>( png_get_error_ptr( png ) )->jb, 1 );
    }
    inline void pngQuiet( png_structp, png_const_charp ) {}
    inline void pngWrite( png_structp png, png_bytep b, size_t n )
    {
        PngIo * io = static_cast<PngIo *>( png_get_io_ptr( png ) );
        io->out->insert( io->out->end(), b, b + n );
    }
    inline void pngFlush( png_structp ) {}

    // what a PNG file contains: raw values and how the library shows them
    struct PngKind
    {
        int type; // PNG_COLOR_TYPE_*
        int bits;
        bool interlaced, trns, gamma;
    };
    inline DiskBytes writePng( uint32_t w, uint32_t h, const PngKind & k, uint32_t seed, Pic & exp )
    {
        DiskBytes d;
        PngIo io;
        io.out = &d;
        png_structp png = png_create_write_struct( PNG_LIBPNG_VER_STRING, &io, pngError, pngQuiet );
        png_infop info = png_create_info_struct( png );
        const int ch = k.type == PNG_COLOR_TYPE_GRAY || k.type == PNG_COLOR_TYPE_PALETTE ? 1 : k.type == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : k.type == PNG_COLOR_TYPE_RGB ? 3 : 4;
        const size_t row = ( size_t( w ) * size_t( ch ) * size_t( k.bits ) + 7 ) / 8;
        DiskBytes raw( row * h );
        Rng r( seed );
        for ( uint8_t & b : raw )
            b = uint8_t( r.below( 256 ) );
        png_color pal[256];
        for ( png_color & c : pal ) {
            c.red = uint8_t( r.below( 256 ) );
            c.green = uint8_t( r.below( 256 ) );
            c.blue = uint8_t( r.below( 256 ) );
        }
        std::vector<png_bytep> rows;
        for ( uint32_t y = 0; y < h; ++y )
            rows.push_back( raw.data() + y * row );
        if ( setjmp( io.jb ) ) {
            png_destroy_write_struct( &png, &info );
            d.clear();
            return d;
        }
        png_set_write_fn( png, &io, pngWrite, pngFlush );
        png_set_IHDR( png, info, w, h, k.bits, k.type, k.interlaced ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT );
        if ( k.type == PNG_COLOR_TYPE_PALETTE )
            png_set_PLTE( png, info, pal, 1 << k.bits );
        if ( k.trns && !( k.type & PNG_COLOR_MASK_ALPHA ) ) {
            png_byte a[4] = { 0, 100, 200, 255 };
            png_color_16 c;
            memset( &c, 0, sizeof c );
            c.gray = uint16_t( seed % ( 1u << k.bits ) );
            c.red = c.green = c.blue = c.gray;
            png_set_tRNS( png, info, a, k.type == PNG_COLOR_TYPE_PALETTE ? ( k.bits == 1 ? 2 : 4 ) : 0, &c );
        }
        if ( k.gamma )
            png_set_gAMA( png, info, 0.7 );
        png_write_info( png, info );
        png_write_image( png, rows.data() );
        png_write_end( png, info );
        png_destroy_write_struct( &png, &info );

        const bool grey = k.type == PNG_COLOR_TYPE_GRAY || k.type == PNG_COLOR_TYPE_GRAY_ALPHA;
        exp.make( w, h, grey ? 1 : 3 );
        for ( uint32_t y = 0; y < h; ++y )
            for ( uint32_t x = 0; x < w; ++x ) {
                uint8_t v[4] = { 0, 0, 0, 0 };
                for ( int c = 0; c < ch; ++c ) {
                    const size_t bit = ( size_t( x ) * size_t( ch ) + size_t( c ) ) * size_t( k.bits );
                    const uint8_t * b = raw.data() + y * row + bit / 8;
                    if ( k.bits >= 8 )
                        v[c] = b[0]; // the high byte of 16 bits
                    else {
                        const uint32_t m = ( 1u << k.bits ) - 1;
                        v[c] = uint8_t( ( b[0] >> ( 8 - k.bits - int( bit % 8 ) ) ) & int( m ) );
                        if ( k.type == PNG_COLOR_TYPE_GRAY )
                            v[c] = uint8_t( v[c] * 255u / m );
                    }
                }
                uint8_t * o = &exp.px[( size_t( y ) * w + x ) * exp.cc];
                if ( grey )
                    o[0] = v[0];
                else {
                    if ( k.type == PNG_COLOR_TYPE_PALETTE ) {
                        const png_color c = pal[v[0]];
                        v[0] = c.red;
                        v[1] = c.green;
                        v[2] = c.blue;
                    }
                    o[0] = v[2];
                    o[1] = v[1];
                    o[2] = v[0];
                }
            }
        return d;
    }
    // opaque 8 bit images only; colours as penguinV keeps them
    inline bool readPng( const DiskBytes & d, Pic & p, bool keepAlpha = false )
    {
        png_image im;
        memset( &im, 0, sizeof im );
        im.version = PNG_IMAGE_VERSION;
        if ( d.empty() || !png_image_begin_read_from_memory( &im, d.data(), d.size() ) )
            return false;
        const bool colour = im.format & PNG_FORMAT_FLAG_COLOR, alpha = im.format & PNG_FORMAT_FLAG_ALPHA;
        im.format = colour ? ( alpha ? PNG_FORMAT_BGRA : PNG_FORMAT_BGR ) : ( alpha ? PNG_FORMAT_GA : PNG_FORMAT_GRAY );
        if ( uint64_t( im.width ) * im.height > 16u << 20 ) {
            png_image_free( &im );
            return false;
        }
        const uint32_t ch = PNG_IMAGE_SAMPLE_CHANNELS( im.format );
        DiskBytes b( size_t( im.width ) * im.height * ch );
        const uint32_t w = im.width, h = im.height;
        if ( !png_image_finish_read( &im, nullptr, b.data(), int( w * ch ), nullptr ) ) {
            png_image_free( &im );
            return false;
        }
        p.make( w, h, colour ? ( alpha && keepAlpha ? 4 : 3 ) : 1 );
        for ( size_t i = 0; i < size_t( w ) * h; ++i )
            memcpy( &p.px[i * p.cc], &b[i * ch], p.cc );
        png_image_free( &im );
        return true;
    }
    inline uint32_t crc( const uint8_t * p, size_t n )
    {
        uint32_t c = ~0u;
        for ( size_t i = 0; i < n; ++i ) {
            c ^= p[i];
            for ( int k = 0; k < 8; ++k )
                c = c & 1 ? 0xEDB88320u ^ ( c >> 1 ) : c >> 1;
        }
        return ~c;
    }
    inline void fixHeaderCrc( DiskBytes & d ) // of IHDR
    {
        if ( d.size() < 33 )
            return;
        const uint32_t c = crc( &d[12], 17 );
        for ( int i = 0; i < 4; ++i )
            d[29 + size_t( i )] = uint8_t( c >> ( 24 - 8 * i ) );
    }

    // ---------------------------------------------------------------- JPEG
    struct JpegErr
    {
        jpeg_error_mgr m;
        jmp_buf jb;
        bool early = false, eof = false;
    };
    inline void jpegExit( j_common_ptr c )
    {
        longjmp( reinterpret_cast<JpegErr *>( c->err )->jb, 1 );
    }
    inline void jpegMessage( j_common_ptr c, int level )
    {
        JpegErr * e = reinterpret_cast<JpegErr *>( c->err );
        if ( level < 0 && ( c->err->msg_code == JWRN_JPEG_EOF || c->err->msg_code == JWRN_HIT_MARKER ) )
            e->eof = true;
    }
    inline bool readJpeg( const DiskBytes & d, Pic & p, bool & cutShort )
    {
        jpeg_decompress_struct c;
        JpegErr e;
        c.err = jpeg_std_error( &e.m );
        e.m.error_exit = jpegExit;
        e.m.emit_message = jpegMessage;
        cutShort = false;
        if ( d.empty() )
            return false;
        if ( setjmp( e.jb ) ) {
            jpeg_destroy_decompress( &c );
            return false;
        }
        jpeg_create_decompress( &c );
        jpeg_mem_src( &c, d.data(), static_cast<unsigned long>( d.size() ) );
        jpeg_read_header( &c, TRUE );
        if ( uint64_t( c.image_width ) * c.image_height > 4u << 20 )
            longjmp( e.jb, 1 );
        jpeg_start_decompress( &c );
        p.make( c.output_width, c.output_height, uint32_t( c.output_components ) );
        while ( c.output_scanline < c.output_height ) {
            JSAMPROW r = &p.px[c.output_scanline * p.row()];
            jpeg_read_scanlines( &c, &r, 1 );
        }
        cutShort = e.eof;
        jpeg_finish_decompress( &c );
        jpeg_destroy_decompress( &c );
        return true;
    }
    struct JpegKind
    {
        int quality;
        bool progressive;
        uint32_t restart, sub; // sub: 1 no subsampling
        int space = 0; // 0: by number of colours, otherwise JCS_* of the stored image
    };
    inline DiskBytes writeJpeg( const Pic & p, const JpegKind & k )
    {
        jpeg_compress_struct c;
        JpegErr e;
        unsigned char * buf = nullptr;
        unsigned long n = 0;
        c.err = jpeg_std_error( &e.m );
        e.m.error_exit = jpegExit;
        e.m.emit_message = jpegMessage;
        if ( setjmp( e.jb ) ) {
            jpeg_destroy_compress( &c );
            return DiskBytes();
        }
        jpeg_create_compress( &c );
        jpeg_mem_dest( &c, &buf, &n );
        c.image_width = p.w;
        c.image_height = p.h;
        c.input_components = int( p.cc );
        c.in_color_space = p.cc == 1 ? JCS_GRAYSCALE : p.cc == 3 ? JCS_RGB : JCS_CMYK;
        jpeg_set_defaults( &c );
        if ( k.space )
            jpeg_set_colorspace( &c, J_COLOR_SPACE( k.space ) );
        jpeg_set_quality( &c, k.quality, TRUE );
        if ( k.progressive )
            jpeg_simple_progression( &c );
        c.restart_interval = k.restart;
        if ( k.sub )
            c.comp_info[0].h_samp_factor = c.comp_info[0].v_samp_factor = 1;
        jpeg_start_compress( &c, TRUE );
        while ( c.next_scanline < c.image_height ) {
            JSAMPROW r = const_cast<uint8_t *>( &p.px[c.next_scanline * p.row()] );
            jpeg_write_scanlines( &c, &r, 1 );
        }
        jpeg_finish_compress( &c );
        jpeg_destroy_compress( &c );
        DiskBytes d( buf, buf + n );
        free( buf );
        return d;
    }
}
