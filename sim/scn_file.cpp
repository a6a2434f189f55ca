// Image files on a simulated disk: C15 (round trip), C16 (failing saves), C17 (damaged files), C18 (crashes), C10 (several threads).
#include "disk.h"
#include "pic.h"
#include "file/bmp_image.h"
#include "file/file_image.h"
#include "file/jpeg_image.h"
#include "file/png_image.h"
#include "file/raw_image.h"
#include <exception>
#include <memory>
#include <thread>

namespace
{
    using pic::Pic;

    enum Fmt
    {
        BMP,
        PNG,
        JPEG,
        RAW
    };
    const char * const fmtName[] = { "BMP", "PNG", "JPEG", "raw" };

    struct Job
    {
        int fmt = BMP;
        bool generic = false; // through File_Operation
        int form = 0; // of Save: 0 whole image, 1 region; of Load: bit 1: into an existing image
        uint32_t align = 1, x = 0, y = 0;
        int quality = 100;
        Pic img, exp; // the image and the part of it which is saved
        std::string path;
        bool supported = true;

        std::string text() const
        {
            char b[300];
            snprintf( b, sizeof b, "%s%s image %ux%ux%u of %u byte values aligned to %u, region %ux%u at %u,%u%s", generic ? "File_Operation " : "", fmtName[fmt], img.w, img.h, img.cc,
                      img.depth, align, exp.w, exp.h, x, y, fmt == JPEG ? ( " quality " + std::to_string( quality ) ).c_str() : "" );
            return b;
        }
    };

    uint32_t side( bool small )
    {
        switch ( sim_choose( small ? 3 : 5 ) ) {
        case 0:
            return 1 + sim_choose( 3 );
        case 1:
        case 2:
            return 1 + sim_choose( 18 );
        case 3:
            return 1 + sim_choose( 70 );
        default:
            return 30 + sim_choose( 90 );
        }
    }

    // fixedFmt < 0: any
    void gen( Job & j, int fixedFmt, bool allowUnsupported, bool small, const char * name = "image" )
    {
        SimRt rt;
        j.supported = true;
        j.fmt = fixedFmt >= 0 ? fixedFmt : int( sim_choose( 4 ) );
        const uint32_t w = side( small ), h = side( small );
        uint32_t cc;
        switch ( j.fmt ) {
        case BMP:
            cc = sim_choose( 3 );
            cc = cc == 2 ? 4 : cc * 2 + 1;
            break;
        case PNG:
        case JPEG:
            cc = sim_choose( 2 ) * 2 + 1;
            if ( j.fmt == PNG && allowUnsupported && sim_choose( 4 ) == 0 ) {
                cc = 4;
                j.supported = false; // may be refused but not garbled
            }
            break;
        default:
            cc = sim_choose( 3 );
            cc = cc == 2 ? 4 : cc * 2 + 1;
        }
        if ( allowUnsupported && j.fmt != RAW && sim_choose( 12 ) == 0 ) {
            cc = 2 + sim_choose( 4 );
            j.supported = cc == 3 || ( cc == 4 && j.fmt == BMP ); // a PNG image with 4 colours may be refused but not garbled
        }
        const bool roi = j.fmt != RAW && sim_choose( 2 );
        uint32_t l = 0, t = 0, r = 0, b = 0;
        if ( roi ) {
            l = sim_choose( 6 );
            t = sim_choose( 6 );
            r = sim_choose( 6 );
            b = sim_choose( 6 );
        }
        j.form = roi ? 1 : 0;
        if ( sim_choose( 2 ) )
            j.form |= 2;
        j.generic = j.fmt != RAW && sim_choose( 3 ) == 0;
        static const uint32_t aligns[] = { 1, 2, 4, 8, 16, 32, 3, 64 };
        j.align = sim_choose( 2 ) ? 1 : aligns[sim_choose( 8 )];
        j.x = l;
        j.y = t;
        j.quality = j.fmt == JPEG && sim_choose( 2 ) ? 1 + int( sim_choose( 100 ) ) : 100;
        const uint32_t depth = j.fmt == RAW ? 1u << sim_choose( 3 ) : 1;
        j.img.make( l + w + r, t + h + b, cc, depth );
        paint( j.img, sim_choose( 1u << 20 ), j.fmt == JPEG );
        j.exp.make( w, h, cc, depth );
        for ( uint32_t y = 0; y < h; ++y )
            memcpy( &j.exp.px[y * j.exp.row()], &j.img.px[( t + y ) * j.img.row() + size_t( l ) * cc * depth], j.exp.row() );
        static const char * const ext[] = { ".bmp", ".png", ".jpg", ".raw" };
        std::string base = name;
        if ( sim_choose( 6 ) == 0 ) // only the end of a name tells the format
            base += ext[sim_choose( 4 )];
        j.path = base + ext[j.fmt];
        if ( j.fmt == JPEG && sim_choose( 2 ) )
            j.path = base + ".jpeg";
        if ( j.fmt == BMP && sim_choose( 4 ) == 0 )
            j.path = base + ".dib";
    }

    struct Outcome
    {
        bool thrown = false;
        std::string what;
        Pic p; // of a load; empty if nothing was loaded
    };

    template <typename T>
    void build( const Job & j, penguinV::ImageTemplate<T> & i )
    {
        // part of the preparation of a run: not subject to faults
        penguinV::ImageTemplate<T> k( j.img.w, j.img.h, uint8_t( j.img.cc ), uint8_t( j.align ) );
        const size_t bytes = sizeof( T ) * k.rowSize() * k.height();
        sim_write( k.data(), bytes );
        {
            SimRt rt;
            memset( static_cast<void *>( k.data() ), 0xA5, bytes );
            for ( uint32_t y = 0; y < j.img.h; ++y )
                memcpy( k.data() + size_t( y ) * k.rowSize(), &j.img.px[y * j.img.row()], j.img.row() );
        }
        i.swap( k );
    }

    template <typename F>
    void guarded( Outcome & o, F f )
    {
        try {
            f();
        }
        catch ( const std::exception & e ) {
            o.thrown = true;
            SimRt rt;
            o.what = e.what();
        }
        catch ( ... ) {
            o.thrown = true;
            SimRt rt;
            o.what = "?";
        }
    }

    // an image in memory and how to save it
    struct Source
    {
        const Job & j;
        penguinV::Image i8;
        penguinV::ImageTemplate<uint16_t> i16;
        penguinV::ImageTemplate<uint32_t> i32;
        explicit Source( const Job & job )
            : j( job )
        {
            if ( j.img.depth == 1 )
                build( j, i8 );
            else if ( j.img.depth == 2 )
                build( j, i16 );
            else
                build( j, i32 );
        }
        Outcome save( const std::string & path )
        {
            Outcome o;
            guarded( o, [&] {
                SimSut sut;
                const uint32_t w = j.exp.w, h = j.exp.h;
                const bool whole = !( j.form & 1 );
                if ( j.generic ) {
                    if ( whole )
                        File_Operation::Save( path, i8 );
                    else
                        File_Operation::Save( path, i8, j.x, j.y, w, h );
                    return;
                }
                switch ( j.fmt ) {
                case BMP:
                    if ( whole )
                        Bitmap_Operation::Save( path, i8 );
                    else
                        Bitmap_Operation::Save( path, i8, j.x, j.y, w, h );
                    break;
                case PNG:
                    if ( whole )
                        Png_Operation::Save( path, i8 );
                    else
                        Png_Operation::Save( path, i8, j.x, j.y, w, h );
                    break;
                case JPEG:
                    if ( whole )
                        Jpeg_Operation::Save( path, i8 );
                    else
                        Jpeg_Operation::Save( path, i8, j.x, j.y, w, h );
                    break;
                default:
                    if ( j.img.depth == 1 )
                        Raw_Operation::Save( path, i8 );
                    else if ( j.img.depth == 2 )
                        Raw_Operation::Save( path, i16 );
                    else
                        Raw_Operation::Save( path, i32 );
                }
            } );
            return o;
        }
        void intact( const char * when )
        {
            const uint8_t * p = j.img.depth == 1 ? i8.data() : j.img.depth == 2 ? reinterpret_cast<const uint8_t *>( i16.data() ) : reinterpret_cast<const uint8_t *>( i32.data() );
            const size_t rs = j.img.depth == 1 ? i8.rowSize() : j.img.depth == 2 ? size_t( i16.rowSize() ) * 2 : size_t( i32.rowSize() ) * 4;
            sim_read( p, rs * j.img.h );
            SimRt rt;
            for ( uint32_t y = 0; y < j.img.h; ++y )
                if ( memcmp( p + y * rs, &j.img.px[y * j.img.row()], j.img.row() ) )
                    sim_fail( "image-changed", "%s%s: saving changed the image in memory", when, j.text().c_str() );
        }
    };

    template <typename T>
    void take( const penguinV::ImageTemplate<T> & i, Outcome & o )
    {
        if ( i.empty() ) {
            if ( i.width() || i.height() ) {
                SimRt rt;
                sim_fail( "geometry", "an image without data has %ux%u pixels", i.width(), i.height() );
            }
            return;
        }
        {
            SimRt rt;
            o.p.make( i.width(), i.height(), i.colorCount(), sizeof( T ) );
            if ( i.rowSize() < i.width() * i.colorCount() || o.p.empty() )
                sim_fail( "geometry", "loaded image: row size %u for %ux%ux%u pixels", i.rowSize(), i.width(), i.height(), i.colorCount() );
        }
        for ( uint32_t y = 0; y < i.height(); ++y ) {
            const T * r = i.data() + size_t( y ) * i.rowSize();
            sim_read( r, o.p.row() );
            SimRt rt;
            memcpy( &o.p.px[y * o.p.row()], r, o.p.row() );
        }
    }

    Outcome load( const Job & j, const std::string & path )
    {
        Outcome o;
        penguinV::Image i8;
        penguinV::ImageTemplate<uint16_t> i16;
        penguinV::ImageTemplate<uint32_t> i32;
        if ( ( j.form & 2 ) && j.fmt != RAW ) { // into an image which has been used
            penguinV::Image k( 3, 2, 3, 4 );
            k.fill( 77 );
            i8.swap( k );
        }
        guarded( o, [&] {
            SimSut sut;
            const bool into = j.form & 2;
            if ( j.generic ) {
                if ( into )
                    File_Operation::Load( path, i8 );
                else
                    i8 = File_Operation::Load( path );
                return;
            }
            switch ( j.fmt ) {
            case BMP:
                if ( into )
                    Bitmap_Operation::Load( path, i8 );
                else
                    i8 = Bitmap_Operation::Load( path );
                break;
            case PNG:
                if ( into )
                    Png_Operation::Load( path, i8 );
                else
                    i8 = Png_Operation::Load( path );
                break;
            case JPEG:
                if ( into )
                    Jpeg_Operation::Load( path, i8 );
                else
                    i8 = Jpeg_Operation::Load( path );
                break;
            default:
                if ( j.exp.depth == 1 )
                    i8 = Raw_Operation::Load<uint8_t>( path, j.exp.w, j.exp.h, uint8_t( j.exp.cc ) );
                else if ( j.exp.depth == 2 )
                    i16 = Raw_Operation::Load<uint16_t>( path, j.exp.w, j.exp.h, uint8_t( j.exp.cc ) );
                else
                    i32 = Raw_Operation::Load<uint32_t>( path, j.exp.w, j.exp.h, uint8_t( j.exp.cc ) );
            }
        } );
        if ( !o.thrown ) {
            if ( j.exp.depth == 1 || j.fmt != RAW )
                take( i8, o );
            else if ( j.exp.depth == 2 )
                take( i16, o );
            else
                take( i32, o );
        }
        SimSut sut; // so that the destructors are accounted
        i8.clear();
        i16.clear();
        i32.clear();
        return o;
    }

    // empty: the same
    std::string differ( const Pic & a, const Pic & e )
    {
        char b[200];
        if ( a.w != e.w || a.h != e.h || a.cc != e.cc || a.depth != e.depth ) {
            if ( a.cc == 3 && e.cc == 4 && a.w == e.w && a.h == e.h && a.depth == 1 && e.depth == 1 ) { // the alpha channel may be dropped
                Pic r;
                r.make( e.w, e.h, 3, 1 );
                for ( size_t i = 0, n = size_t( e.w ) * e.h; i < n; ++i )
                    memcpy( &r.px[i * 3], &e.px[i * 4], 3 );
                return differ( a, r );
            }
            snprintf( b, sizeof b, "%ux%ux%u instead of %ux%ux%u pixels", a.w, a.h, a.cc, e.w, e.h, e.cc );
            return b;
        }
        for ( size_t i = 0; i < a.px.size(); ++i )
            if ( a.px[i] != e.px[i] ) {
                snprintf( b, sizeof b, "byte %zu of row %zu is %u instead of %u", i % a.row(), i / a.row(), a.px[i], e.px[i] );
                return b;
            }
        return "";
    }
    // JPEG: the difference must not be larger than what the reference encoder produces
    std::string differLossy( const Pic & a, const Job & j )
    {
        const Pic & e = j.exp;
        if ( a.w != e.w || a.h != e.h || a.cc != e.cc )
            return differ( a, e );
        Pic r;
        bool cut;
        pic::JpegKind k = { j.quality, false, 0, 0, 0 };
        if ( !pic::readJpeg( pic::writeJpeg( e, k ), r, cut ) )
            sim_fail( "internal", "reference encoder" );
        uint64_t sum = 0, refSum = 0;
        uint32_t mx = 0, refMx = 0;
        for ( size_t i = 0; i < a.px.size(); ++i ) {
            const uint32_t d = uint32_t( abs( int( a.px[i] ) - int( e.px[i] ) ) ), f = uint32_t( abs( int( r.px[i] ) - int( e.px[i] ) ) );
            sum += d;
            refSum += f;
            mx = d > mx ? d : mx;
            refMx = f > refMx ? f : refMx;
        }
        char b[200];
        if ( mx > refMx * 2 + 6 || sum > refSum * 2 + a.px.size() * 2 ) {
            snprintf( b, sizeof b, "pixels differ by up to %u, on average by %.1f (a reference encoder: %u, %.1f)", mx, double( sum ) / double( a.px.size() ), refMx,
                      double( refSum ) / double( a.px.size() ) );
            return b;
        }
        return "";
    }

    // what the stored bytes mean, according to independent readers; empty: right
    std::string storedWrong( const Job & j, const std::string & path )
    {
        DiskBytes d;
        if ( !sim_disk_get( path.c_str(), d ) )
            return "there is no file";
        Pic p;
        bool cut = false;
        switch ( j.fmt ) {
        case BMP:
            if ( !pic::readBmp( d, p ) )
                return "the file is not a complete BMP image (" + std::to_string( d.size() ) + " bytes)";
            break;
        case PNG:
            if ( !pic::readPng( d, p, true ) )
                return "the file is not a complete PNG image (" + std::to_string( d.size() ) + " bytes)";
            if ( d.size() < 12 || memcmp( &d[d.size() - 12], "\0\0\0\0IEND\xae\x42\x60\x82", 12 ) )
                return "the PNG file has no end";
            break;
        case JPEG:
            if ( !pic::readJpeg( d, p, cut ) || cut )
                return "the file is not a complete JPEG image (" + std::to_string( d.size() ) + " bytes)";
            if ( p.cc != j.exp.cc || d.size() < 2 || d[d.size() - 2] != 0xff || d[d.size() - 1] != 0xd9 )
                return "the JPEG file has no end or another number of colours";
            break;
        default:
            if ( d.size() != j.exp.px.size() )
                return "the file has " + std::to_string( d.size() ) + " instead of " + std::to_string( j.exp.px.size() ) + " bytes";
            p = j.exp;
            p.px = d;
        }
        const std::string s = j.fmt == JPEG ? differLossy( p, j ) : differ( p, j.exp );
        return s.empty() ? s : "the stored file: " + s;
    }

    void mustMatch( const Job & j, const Outcome & o, const char * when )
    {
        SimRt rt;
        if ( o.thrown )
            sim_fail( "load-fails", "%s%s: loading throws: %s", when, j.text().c_str(), o.what.c_str() );
        if ( o.p.empty() )
            sim_fail( "load-fails", "%s%s: the saved file is not loaded", when, j.text().c_str() );
        const std::string s = j.fmt == JPEG ? differLossy( o.p, j ) : differ( o.p, j.exp );
        if ( !s.empty() )
            sim_fail( "wrong-image", "%s%s: loaded image: %s", when, j.text().c_str(), s.c_str() );
    }

    void noHandles( const Job & j, const char * when )
    {
        SimRt rt;
        if ( sim_disk_open_handles() )
            sim_fail( "handle-leak", "%s%s: %s stays open", when, j.text().c_str(), sim_disk_handle_list().c_str() );
    }

    void noBlocks( const Job & j, uint64_t serial, const char * when )
    {
        char b[400];
        SimRt rt;
        if ( sim_live_blocks( serial, b, sizeof b ) != 0 )
            sim_fail( "leak", "%s%s: memory is left behind:%s", when, j.text().c_str(), b );
    }

    DiskFaults benign( uint32_t level )
    {
        DiskFaults f;
        static const uint32_t rate[] = { 0, 12, 4, 2 };
        f.shortOneIn = rate[sim_choose( level )];
        f.intrOneIn = rate[sim_choose( level )];
        f.delayOneIn = rate[sim_choose( level )];
        return f;
    }

    void setQuality( const Job & j )
    {
        if ( j.fmt == JPEG )
            Jpeg_Operation::SetImageQuality( j.quality );
    }

    // an older file at the same place
    void older( const Job & j, Job & old )
    {
        switch ( sim_choose( 3 ) ) {
        case 0:
            break;
        case 1: { // another image; larger, smaller or of the same size
            gen( old, j.fmt, false, false );
            if ( sim_choose( 2 ) ) {
                SimRt rt;
                const uint32_t seed = sim_choose( 1000 );
                old = j;
                paint( old.exp, seed, j.fmt == JPEG );
            }
            SimRt rt;
            Pic dummy;
            DiskBytes d;
            if ( j.fmt == BMP )
                d = pic::writeBmp( old.exp, false, false, false, nullptr, old.exp.cc == 1 ? 1024 : 0, dummy );
            if ( j.fmt == BMP && old.exp.cc == 1 )
                for ( int i = 0; i < 256; ++i )
                    pic::w32( d, 54 + size_t( i ) * 4, uint32_t( i ) * 0x010101u );
            if ( j.fmt == PNG ) {
                pic::PngKind k = { old.exp.cc == 1 ? PNG_COLOR_TYPE_GRAY : PNG_COLOR_TYPE_RGB, 8, false, false, false };
                d = pic::writePng( old.exp.w, old.exp.h, k, 7, old.exp );
            }
            if ( j.fmt == JPEG ) {
                pic::JpegKind k = { 90, false, 0, 0, 0 };
                d = pic::writeJpeg( old.exp, k );
            }
            if ( j.fmt == RAW )
                d = old.exp.px;
            sim_disk_put( j.path.c_str(), d.data(), d.size() );
            break;
        }
        default: {
            SimRt rt;
            DiskBytes d( sim_choose( 400 ) * ( 1 + sim_choose( 60 ) ), uint8_t( sim_choose( 256 ) ) );
            sim_disk_put( j.path.c_str(), d.data(), d.size() );
        }
        }
    }

    // C15
    void roundtrip()
    {
        const uint32_t n = 1 + sim_choose( 2 );
        for ( uint32_t k = 0; k < n; ++k ) {
            Job j, old;
            gen( j, -1, true, false );
            if ( ( j.fmt == BMP || j.fmt == RAW ) && sim_choose( 400 ) == 0 ) { // more than one block
                SimRt rt;
                j = Job();
                j.fmt = sim_choose( 2 ) ? BMP : RAW;
                const uint32_t cc = sim_choose( 2 ) ? 3 : 1;
                j.img.make( 3000 + sim_choose( 300 ), 1480 + sim_choose( 100 ), cc, 1 );
                paint( j.img, 5, true );
                j.exp = j.img;
                j.path = j.fmt == BMP ? "big.bmp" : "big.raw";
            }
            older( j, old );
            setQuality( j );
            Source s( j );
            sim_disk_faults( benign( 4 ) );
            Outcome o = s.save( j.path );
            sim_disk_no_faults();
            if ( o.thrown ) {
                SimRt rt;
                if ( j.supported )
                    sim_fail( "save-fails", "%s: saving throws: %s", j.text().c_str(), o.what.c_str() );
                noHandles( j, "refused save of " );
                continue;
            }
            s.intact( "" );
            noHandles( j, "after saving " );
            {
                SimRt rt;
                const std::string w = storedWrong( j, j.path );
                if ( !w.empty() )
                    sim_fail( "wrong-file", "%s: %s", j.text().c_str(), w.c_str() );
            }
            sim_disk_faults( benign( 4 ) );
            Outcome l = load( j, j.path );
            sim_disk_no_faults();
            mustMatch( j, l, "" );
            noHandles( j, "after loading " );
        }
        sim_exit_normally();
    }

    // C10: several threads with their own files
    void concurrent()
    {
        const uint32_t n = 2 + sim_choose( 2 );
        std::vector<Job> jobs( n );
        const bool same = sim_choose( 2 );
        int fmt = int( sim_choose( 4 ) );
        int quality = 100;
        for ( uint32_t i = 0; i < n; ++i ) {
            gen( jobs[i], same ? fmt : -1, false, true, ( "t" + std::to_string( i ) ).c_str() );
            if ( jobs[i].fmt == JPEG )
                quality = jobs[i].quality;
        }
        for ( Job & j : jobs )
            j.quality = quality;
        Jpeg_Operation::SetImageQuality( quality );
        const bool rush = sim_choose( 2 );
        if ( rush )
            sim_disk_faults( benign( 3 ) );
        std::vector<std::thread> threads;
        for ( uint32_t i = 0; i < n; ++i )
            threads.emplace_back( [&, i] {
                Job & j = jobs[i];
                Source s( j );
                Outcome o = s.save( j.path );
                {
                    SimRt rt;
                    if ( o.thrown )
                        sim_fail( "save-fails", "next to other threads: %s: saving throws: %s", j.text().c_str(), o.what.c_str() );
                    const std::string w = storedWrong( j, j.path );
                    if ( !w.empty() )
                        sim_fail( "wrong-file", "next to other threads: %s: %s", j.text().c_str(), w.c_str() );
                }
                mustMatch( j, load( j, j.path ), "next to other threads: " );
            } );
        for ( std::thread & t : threads )
            t.join();
        threads.clear();
        noHandles( jobs[0], "" );
        sim_exit_normally();
    }

    // C16
    void savefail()
    {
        Job j, old;
        gen( j, -1, false, true );
        older( j, old );
        setQuality( j );
        uint32_t ops;
        size_t bytes;
        {
            // learns how many operations a save has, and lets the process use everything once
            Source s( j );
            sim_disk_faults( DiskFaults() );
            Outcome o = s.save( "first" + j.path );
            ops = sim_disk_ops();
            SimRt rt;
            DiskBytes d;
            sim_disk_get( ( "first" + j.path ).c_str(), d );
            bytes = d.size();
            sim_disk_remove( ( "first" + j.path ).c_str() );
            if ( o.thrown )
                sim_fail( "save-fails", "%s: saving throws: %s", j.text().c_str(), o.what.c_str() );
        }
        load( j, "missing" );
        const uint64_t serial = sim_alloc_serial();
        const uint32_t tries = 1 + sim_choose( 3 );
        for ( uint32_t t = 0; t < tries; ++t ) {
            Source s( j );
            DiskFaults f = benign( 3 );
            const uint64_t before = sim_alloc_failed();
            switch ( sim_choose( 6 ) ) {
            case 0:
            case 1:
                f.failAt = 1 + sim_choose( ops + 2 );
                f.failOn = sim_choose( 2 );
                break;
            case 2: // disk full
            {
                SimRt rt;
                DiskBytes d;
                size_t have = 0;
                if ( sim_disk_get( j.path.c_str(), d ) )
                    have = d.size();
                f.capacity = 1 + sim_choose( uint32_t( bytes + have / 2 + 1 ) );
                break;
            }
            case 3:
                f.errorOneIn = 1 + sim_choose( ops );
                break;
            case 4:
                sim_alloc_fail_at( 1 + sim_choose( sim_choose( 2 ) ? 60 : 8 ) );
                break;
            default: // the end of the file is where it hurts
                f.failAt = ops > sim_choose( 3 ) ? ops - sim_choose( 3 ) : 1;
            }
            sim_disk_faults( f );
            Outcome o = s.save( j.path );
            sim_alloc_fail_at( 0 );
            const uint32_t failed = sim_disk_failed() + uint32_t( sim_alloc_failed() - before );
            sim_disk_no_faults();
            s.intact( o.thrown ? "failed save of " : "" );
            noHandles( j, o.thrown ? "failed save of " : "after saving " );
            SimRt rt;
            if ( o.thrown ) {
                if ( !failed )
                    sim_fail( "save-fails", "%s: saving throws although nothing failed: %s", j.text().c_str(), o.what.c_str() );
                sim_count( "probe.failed-save", 1 );
                continue;
            }
            const std::string w = storedWrong( j, j.path );
            if ( !w.empty() )
                sim_fail( "unreported-failure", "%s: saving returned normally although %u operations failed: %s", j.text().c_str(), failed, w.c_str() );
        }
        sim_faults_stop();
        noBlocks( j, serial, "after failed saves of " );
        // recovery
        {
            Source s( j );
            Outcome o = s.save( j.path );
            SimRt rt;
            if ( o.thrown )
                sim_fail( "no-recovery", "after failed saves of %s: saving throws: %s", j.text().c_str(), o.what.c_str() );
            const std::string w = storedWrong( j, j.path );
            if ( !w.empty() )
                sim_fail( "no-recovery", "after failed saves of %s: %s", j.text().c_str(), w.c_str() );
        }
        mustMatch( j, load( j, j.path ), "after failed saves: " );
        noHandles( j, "" );
        sim_exit_normally();
    }

    // C18: the saving process
    struct CrashArg
    {
        Job j;
        uint32_t split;
    };
    size_t crashing( void * a, char * out, size_t cap )
    {
        CrashArg & c = *static_cast<CrashArg *>( a );
        setQuality( c.j );
        Source s( c.j );
        sim_disk_journal( true );
        DiskFaults f;
        f.shortOneIn = c.split;
        sim_disk_faults( f );
        Outcome o = s.save( c.j.path );
        SimRt rt;
        const DiskBytes b = sim_disk_journal_export();
        if ( o.thrown || b.size() > cap )
            return 0;
        memcpy( out, b.data(), b.size() );
        return b.size();
    }
    void crash()
    {
        CrashArg c;
        Job old;
        gen( c.j, -1, false, true );
        Job & j = c.j;
        older( j, old );
        c.split = sim_choose( 2 ) ? 2 : 0;
        static char buf[1u << 20];
        const long n = sim_solo( crashing, &c, buf, sizeof buf );
        DiskBytes before;
        bool existed, ok;
        size_t entries;
        std::vector<std::pair<size_t, size_t>> points;
        {
            SimRt rt;
            if ( n <= 0 || size_t( n ) > sizeof buf )
                sim_fail( "save-fails", "%s: saving does not end normally", j.text().c_str() );
            existed = sim_disk_get( j.path.c_str(), before );
            ok = sim_disk_journal_import( reinterpret_cast<uint8_t *>( buf ), size_t( n ) );
            if ( !ok )
                sim_fail( "internal", "journal" );
            entries = sim_disk_journal_size();
        }
        // the end of every operation and bytes within
        const uint32_t many = 8 + sim_choose( 24 );
        for ( uint32_t k = 0; k < many; ++k ) {
            size_t at = sim_choose( 3 ) == 0 && entries ? entries - 1 - sim_choose( uint32_t( entries < 4 ? entries : 4 ) ) : sim_choose( uint32_t( entries + 1 ) );
            size_t torn = 0;
            if ( at < entries && sim_choose( 3 ) ) {
                const size_t b = sim_disk_journal_bytes( at );
                if ( b > 1 )
                    torn = sim_choose( 3 ) == 0 ? b - 1 - sim_choose( uint32_t( b - 1 < 16 ? b - 1 : 16 ) ) : sim_choose( uint32_t( b ) );
            }
            SimRt rt;
            points.emplace_back( at, torn );
        }
        {
            SimRt rt;
            points.emplace_back( entries, 0 );
        }
        for ( auto & p : points ) {
            char when[100];
            DiskBytes now;
            bool exists;
            {
                SimRt rt;
                sim_disk_journal_apply( p.first, p.second );
                exists = sim_disk_get( j.path.c_str(), now );
                snprintf( when, sizeof when, "killed after %zu of %zu operations and %zu bytes: ", p.first, entries, p.second );
                sim_count( "fault.disk.crash", 1 );
            }
            const Outcome o = load( j, j.path );
            noHandles( j, when );
            if ( p.first == entries ) {
                mustMatch( j, o, "after the complete save: " );
                continue;
            }
            SimRt rt;
            if ( o.thrown || o.p.empty() )
                continue;
            if ( exists == existed && now == before )
                continue; // still the older file
            const std::string s = j.fmt == JPEG ? differLossy( o.p, j ) : differ( o.p, j.exp );
            if ( !s.empty() )
                sim_fail( "torn-image", "%s%s: the left-over file of %zu bytes is loaded: %s", when, j.text().c_str(), now.size(), s.c_str() );
            sim_count( "probe.complete-before-end", 1 );
        }
        sim_exit_normally();
    }

    // C17
    struct File
    {
        Job j; // exp: what an intact file shows
        DiskBytes d;
        std::string kind;
    };
    void makeFile( File & f )
    {
        Job & j = f.j;
        gen( j, -1, false, true );
        SimRt rt;
        const uint32_t seed = sim_choose( 1u << 16 );
        j.form &= ~1;
        switch ( j.fmt ) {
        case BMP: {
            const bool core = sim_choose( 3 ) == 0, topDown = sim_choose( 3 ) == 0, noSize = sim_choose( 3 ) == 0;
            DiskBytes pal( 768 );
            pic::Rng r( seed );
            const bool grey = sim_choose( 3 ) == 0, palette = j.exp.cc == 1 && sim_choose( 2 );
            for ( size_t i = 0; i < 768; ++i )
                pal[i] = uint8_t( grey ? i / 3 : r.below( 256 ) );
            f.d = pic::writeBmp( Pic( j.exp ), core, topDown, noSize, palette ? pal.data() : nullptr, sim_choose( 3 ) ? 0 : sim_choose( 9 ), j.exp );
            if ( palette && !pic::readBmp( f.d, j.exp ) ) // also a grey palette: one colour
                sim_fail( "internal", "reference reader of BMP" );
            f.kind = core ? "core header" : "info header";
            if ( topDown && !core )
                f.kind += ", top-down";
            if ( palette )
                f.kind += grey ? ", grey palette" : ", palette";
            break;
        }
        case PNG: {
            static const int types[][2] = { { 0, 1 }, { 0, 2 }, { 0, 4 }, { 0, 8 }, { 0, 16 }, { 2, 8 }, { 2, 16 }, { 3, 1 }, { 3, 2 }, { 3, 4 }, { 3, 8 }, { 4, 8 }, { 4, 16 }, { 6, 8 }, { 6, 16 } };
            const int * t = types[sim_choose( 15 )];
            pic::PngKind k = { t[0], t[1], sim_choose( 3 ) == 0, sim_choose( 3 ) == 0, sim_choose( 4 ) == 0 };
            f.d = pic::writePng( j.exp.w, j.exp.h, k, seed, j.exp );
            f.kind = "colour type " + std::to_string( k.type ) + ", " + std::to_string( k.bits ) + " bits" + ( k.interlaced ? ", interlaced" : "" ) + ( k.trns ? ", tRNS" : "" )
                     + ( k.gamma ? ", gAMA" : "" );
            break;
        }
        case JPEG: {
            if ( sim_choose( 6 ) == 0 ) {
                Pic p;
                p.make( j.exp.w, j.exp.h, 4 );
                paint( p, seed, true );
                j.exp = p;
            }
            pic::JpegKind k = { 50 + int( sim_choose( 51 ) ), sim_choose( 3 ) == 0, sim_choose( 3 ) ? 0 : 1 + sim_choose( 4 ), sim_choose( 2 ), 0 };
            if ( j.exp.cc == 4 && sim_choose( 2 ) )
                k.space = JCS_YCCK;
            if ( j.exp.cc == 3 && sim_choose( 4 ) == 0 )
                k.space = JCS_RGB;
            f.d = pic::writeJpeg( j.exp, k );
            bool cut;
            Pic p;
            if ( f.d.empty() || !pic::readJpeg( f.d, p, cut ) || cut )
                sim_fail( "internal", "reference JPEG" );
            j.exp = p;
            f.kind = std::string( k.progressive ? "progressive" : "baseline" ) + ( k.restart ? ", restarts" : "" );
            break;
        }
        default:
            f.d = j.exp.px;
        }
        if ( f.d.empty() )
            sim_fail( "internal", "reference encoder of %s", j.text().c_str() );
    }

    struct Change
    {
        const char * path;
        DiskBytes d;
    };
    void applyChange( void * a )
    {
        Change & c = *static_cast<Change *>( a );
        sim_disk_put( c.path, c.d.data(), c.d.size() );
    }

    void damage( File & f, DiskBytes & d, std::string & what, bool & header )
    {
        const uint32_t len = uint32_t( d.size() );
        char b[120];
        header = false;
        switch ( sim_choose( 6 ) ) {
        case 0: // flipped bits, most of them in the headers
        {
            const uint32_t n = 1 + sim_choose( 3 );
            what = "flipped bits in";
            for ( uint32_t i = 0; i < n; ++i ) {
                const uint32_t at = sim_choose( 3 ) ? sim_choose( len < 64 ? len : 64 ) : sim_choose( len );
                d[at] = uint8_t( d[at] ^ ( 1u << sim_choose( 8 ) ) );
                what += " " + std::to_string( at );
            }
            break;
        }
        case 1: { // overwritten bytes
            const uint32_t at = sim_choose( 3 ) ? sim_choose( len < 64 ? len : 64 ) : sim_choose( len );
            const uint32_t n = 1 + sim_choose( 8 );
            const uint8_t v = sim_choose( 3 ) == 0 ? 0xff : sim_choose( 2 ) ? 0 : uint8_t( sim_choose( 256 ) );
            for ( uint32_t i = 0; i < n && at + i < len; ++i )
                d[at + i] = v;
            snprintf( b, sizeof b, "%u bytes at %u set to %u", n, at, v );
            what = b;
            break;
        }
        case 2: { // more bytes
            const uint32_t n = 1 + sim_choose( 40 );
            d.insert( d.end(), n, uint8_t( sim_choose( 256 ) ) );
            snprintf( b, sizeof b, "%u bytes appended", n );
            what = b;
            break;
        }
        case 3: { // lost block in the middle
            const uint32_t at = sim_choose( len ), n = 1 + sim_choose( 40 );
            d.erase( d.begin() + at, d.begin() + ( at + n < len ? at + n : len ) );
            snprintf( b, sizeof b, "%u bytes lost at %u", n, at );
            what = b;
            break;
        }
        default: { // a header field with an interesting value
            static const uint32_t values[] = { 0, 1, 2, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x10000, 0x8000, 0xffff, 0x40000000, 0x20000000, 0x55555556, 65500, 4, 3, 16, 8, 40, 12 };
            header = true;
            uint32_t v = values[sim_choose( sizeof values / 4 )];
            if ( f.j.fmt == BMP ) {
                static const uint32_t at[] = { 2, 10, 14, 18, 22, 26, 28, 30, 34, 46, 20, 24 };
                const uint32_t n = 1 + sim_choose( 2 );
                what = "header fields";
                for ( uint32_t i = 0; i < n; ++i ) {
                    const uint32_t o = at[sim_choose( 12 )];
                    if ( sim_choose( 3 ) == 0 && o + 4 <= len ) // a little more or less
                        v = pic::u32( d, o ) + sim_choose( 9 ) - 4;
                    if ( o + 4 <= len ) {
                        if ( o == 26 || o == 28 || o == 20 || o == 24 )
                            pic::w16( d, o, v );
                        else
                            pic::w32( d, o, v );
                    }
                    snprintf( b, sizeof b, " %u=%u", o, v );
                    what += b;
                    v = values[sim_choose( sizeof values / 4 )];
                }
                if ( sim_choose( 3 ) == 0 && d.size() >= 54 && f.d.size() >= 54 && pic::u32( d, 14 ) == 40 && pic::u32( f.d, 14 ) == 40 ) {
                    // the product of the fields fits the length of the file, modulo 2^32
                    const uint32_t row = 1u << ( 2 + sim_choose( 24 ) );
                    const uint32_t body = len - pic::u32( f.d, 10 );
                    if ( body % row == 0 || sim_choose( 2 ) ) {
                        const uint32_t cc = pic::u16( f.d, 28 ) / 8;
                        pic::w32( d, 10, pic::u32( f.d, 10 ) );
                        pic::w16( d, 28, cc * 8 );
                        pic::w32( d, 18, row / cc );
                        const uint32_t h = ( body / row ) + uint32_t( ( uint64_t( 1 ) << 32 ) / row );
                        pic::w32( d, 22, h );
                        pic::w32( d, 34, 0 );
                        what += ", overflowing product";
                    }
                }
            }
            else if ( f.j.fmt == PNG ) {
                const uint32_t o = 16 + 4 * sim_choose( 2 );
                if ( sim_choose( 3 ) == 0 )
                    d[24 + sim_choose( 5 )] = uint8_t( sim_choose( 20 ) );
                else {
                    if ( sim_choose( 2 ) )
                        v = uint32_t( d[o] << 24 | d[o + 1] << 16 | d[o + 2] << 8 | d[o + 3] ) + sim_choose( 9 ) - 4;
                    for ( uint32_t i = 0; i < 4; ++i )
                        d[o + i] = uint8_t( v >> ( 24 - 8 * i ) );
                }
                pic::fixHeaderCrc( d );
                what = "IHDR with a valid CRC";
            }
            else if ( f.j.fmt == JPEG ) {
                // the frame header: FFC0 or FFC2
                size_t o = 0;
                while ( o + 12 < d.size() && !( d[o] == 0xff && ( d[o + 1] == 0xc0 || d[o + 1] == 0xc2 ) ) )
                    ++o;
                if ( o + 12 < d.size() ) {
                    const uint32_t k = sim_choose( 9 );
                    d[o + 2 + k] = uint8_t( sim_choose( 2 ) ? d[o + 2 + k] + 1 : sim_choose( 256 ) );
                }
                what = "frame header";
            }
            else { // another geometry asked for
                Pic & p = f.j.exp;
                what = "other geometry";
                switch ( sim_choose( 4 ) ) {
                case 0:
                    p.w = v ? v : 1;
                    break;
                case 1:
                    p.h = v ? v : 1;
                    break;
                case 2:
                    p.w = 0x10000u;
                    p.h = 0x10000u;
                    break;
                default:
                    p.w = 0x80000000u;
                    p.h = 2u << sim_choose( 3 );
                }
                if ( sim_choose( 2 ) )
                    d.clear();
            }
        }
        }
    }

    void badload()
    {
        File f;
        makeFile( f );
        Job & j = f.j;
        const std::string desc = j.text() + " (" + f.kind + ")";
        sim_mem_limit( 64u << 20 );
        {
            // everything is used once with the intact file
            SimRt rt;
            sim_disk_put( j.path.c_str(), f.d.data(), f.d.size() );
        }
        uint32_t ops;
        {
            sim_disk_faults( benign( 3 ) );
            const Outcome o = load( j, j.path );
            ops = sim_disk_ops();
            sim_disk_no_faults();
            noHandles( j, "after loading " );
            SimRt rt;
            if ( o.thrown || o.p.empty() )
                sim_fail( "load-fails", "intact %s: %s", desc.c_str(), o.thrown ? o.what.c_str() : "not loaded" );
            const std::string s = differ( o.p, j.exp );
            if ( !s.empty() )
                sim_fail( "wrong-image", "intact %s: %s", desc.c_str(), s.c_str() );
        }
        load( j, "missing" );
        const uint64_t serial = sim_alloc_serial();
        const uint32_t tries = 1 + sim_choose( 4 );
        for ( uint32_t t = 0; t < tries; ++t ) {
            DiskBytes d;
            std::string what;
            bool header = false, cut = false, changed = false, missing = false;
            Change ch;
            DiskFaults flt = benign( 3 );
            const Pic geometry = j.exp;
            const uint64_t before = sim_alloc_failed();
            {
                SimRt rt;
                d = f.d;
                sim_disk_mode( j.path.c_str(), 0 );
                switch ( sim_choose( 8 ) ) {
                case 0: // cut
                case 1: {
                    const uint32_t n = sim_choose( 3 ) == 0 ? uint32_t( d.size() ) - 1 - sim_choose( uint32_t( d.size() < 20 ? d.size() : 20 ) ) : sim_choose( uint32_t( d.size() ) );
                    d.resize( n );
                    cut = true;
                    what = "cut to " + std::to_string( n ) + " of " + std::to_string( f.d.size() ) + " bytes";
                    sim_count( "fault.file.cut", 1 );
                    break;
                }
                case 2:
                case 3:
                    damage( f, d, what, header );
                    sim_count( "fault.file.damaged", 1 );
                    break;
                case 4: // read errors
                    if ( sim_choose( 2 ) )
                        flt.failAt = 1 + sim_choose( ops + 1 );
                    else
                        flt.errorOneIn = 1 + sim_choose( ops );
                    flt.failOn = sim_choose( 2 );
                    what = "storage errors";
                    break;
                case 5: // out of memory
                    sim_alloc_fail_at( 1 + sim_choose( sim_choose( 2 ) ? 50 : 8 ) );
                    what = "out of memory";
                    break;
                case 6: { // changed meanwhile
                    flt.changeAt = 1 + sim_choose( ops + 1 );
                    flt.change = applyChange;
                    flt.changeArg = &ch;
                    ch.path = j.path.c_str();
                    ch.d = f.d;
                    changed = true;
                    if ( sim_choose( 2 ) ) {
                        ch.d.resize( sim_choose( uint32_t( ch.d.size() ) ) );
                        what = "cut while being read";
                    }
                    else {
                        std::string w;
                        damage( f, ch.d, w, header );
                        what = "changed while being read: " + w;
                    }
                    break;
                }
                default:
                    if ( sim_choose( 3 ) == 0 ) {
                        sim_disk_mode( j.path.c_str(), 1 + int( sim_choose( 3 ) ) );
                        what = "not a readable file";
                    }
                    else if ( sim_choose( 2 ) ) {
                        missing = true;
                        what = "missing";
                    }
                    else { // another format
                        File g;
                        do
                            makeFile( g );
                        while ( g.j.fmt == j.fmt );
                        d = g.d;
                        what = std::string( "a file of another format: " ) + fmtName[g.j.fmt];
                        if ( j.fmt == RAW && d.size() == j.exp.px.size() )
                            d.push_back( 0 );
                    }
                }
                if ( missing )
                    sim_disk_remove( j.path.c_str() );
                else
                    sim_disk_put( j.path.c_str(), d.data(), d.size() );
                // other content
            }
            sim_disk_faults( flt );
            const Outcome o = load( j, j.path );
            const uint32_t failed = sim_disk_failed() + uint32_t( sim_alloc_failed() - before );
            sim_alloc_fail_at( 0 );
            sim_disk_no_faults();
            sim_disk_mode( j.path.c_str(), 0 );
            noHandles( j, ( "after loading (" + what + ") " ).c_str() );
            SimRt rt;
            const Pic exp = j.exp;
            j.exp = geometry;
            if ( o.thrown || o.p.empty() ) {
                sim_count( "probe.refused", 1 );
                if ( !failed && !changed && d == f.d && !missing && exp.w == geometry.w && exp.h == geometry.h && what != "not a readable file" )
                    sim_fail( "load-fails", "intact %s (%s): not loaded", desc.c_str(), what.c_str() );
                continue;
            }
            // an image was loaded: it has to be what is in the file
            if ( j.fmt == RAW ) {
                const uint64_t want = uint64_t( exp.w ) * exp.h * exp.cc * exp.depth;
                if ( o.p.w != exp.w || o.p.h != exp.h || o.p.cc != exp.cc )
                    sim_fail( "wrong-image", "%s (%s): other geometry than asked for", desc.c_str(), what.c_str() );
                if ( !changed && want != d.size() )
                    sim_fail( "wrong-image", "%s (%s): %ux%u pixels loaded from %zu bytes", desc.c_str(), what.c_str(), o.p.w, o.p.h, d.size() );
                if ( !changed && o.p.px != d )
                    sim_fail( "wrong-image", "%s (%s): other pixels than in the file", desc.c_str(), what.c_str() );
            }
            std::string s = differ( o.p, geometry );
            if ( changed ) {
                if ( s.empty() || j.fmt == JPEG )
                    continue;
                // a mixture of both files: byte by byte one of them
                Pic b;
                const bool readable = j.fmt == BMP ? pic::readBmp( ch.d, b ) : j.fmt == PNG ? pic::readPng( ch.d, b ) : false;
                if ( readable && differ( o.p, b ).empty() )
                    continue;
                if ( ch.d.size() >= f.d.size() && j.fmt != PNG )
                    continue; // overwritten in place: any mixture is possible
                if ( j.fmt == PNG && header )
                    continue; // a valid header which asks for other pixels
                sim_fail( "wrong-image", "%s (%s): %s", desc.c_str(), what.c_str(), s.c_str() );
            }
            if ( s.empty() )
                continue; // everything which matters could be read
            switch ( j.fmt ) {
            case BMP: {
                Pic b;
                if ( !pic::readBmp( d, b ) )
                    sim_fail( "wrong-image", "%s (%s): an image of %ux%ux%u pixels is loaded, which is not in the file", desc.c_str(), what.c_str(), o.p.w, o.p.h, o.p.cc );
                s = differ( o.p, b );
                if ( !s.empty() )
                    sim_fail( "wrong-image", "%s (%s): %s", desc.c_str(), what.c_str(), s.c_str() );
                break;
            }
            case PNG: {
                if ( header ) {
                    const uint32_t w = uint32_t( d[16] ) << 24 | uint32_t( d[17] ) << 16 | uint32_t( d[18] ) << 8 | d[19], h = uint32_t( d[20] ) << 24 | uint32_t( d[21] ) << 16 | uint32_t( d[22] ) << 8 | d[23];
                    if ( o.p.w != w || o.p.h != h )
                        sim_fail( "wrong-image", "%s (%s): %ux%u pixels are loaded, the file says %ux%u", desc.c_str(), what.c_str(), o.p.w, o.p.h, w, h );
                    break;
                }
                Pic b;
                if ( pic::readPng( d, b ) && differ( o.p, b ).empty() )
                    break;
                sim_fail( "wrong-image", "%s (%s): %s", desc.c_str(), what.c_str(), s.c_str() );
            }
            case JPEG: {
                Pic b;
                bool early;
                if ( !pic::readJpeg( d, b, early ) )
                    sim_fail( "wrong-image", "%s (%s): an image of %ux%ux%u pixels is loaded from a file which cannot be decoded", desc.c_str(), what.c_str(), o.p.w, o.p.h, o.p.cc );
                if ( cut )
                    sim_fail( "wrong-image", "%s (%s): loaded: %s", desc.c_str(), what.c_str(), s.c_str() );
                if ( failed )
                    sim_fail( "wrong-image", "%s (%s): loaded although reading failed: %s", desc.c_str(), what.c_str(), s.c_str() );
                s = differ( o.p, b );
                if ( !s.empty() )
                    sim_fail( "wrong-image", "%s (%s): %s", desc.c_str(), what.c_str(), s.c_str() );
                break;
            }
            default:
                break;
            }
        }
        sim_faults_stop();
        noBlocks( j, serial, "after failed loads of " );
        {
            SimRt rt;
            sim_disk_put( j.path.c_str(), f.d.data(), f.d.size() );
        }
        const Outcome o = load( j, j.path );
        {
            SimRt rt;
            if ( o.thrown || o.p.empty() || !differ( o.p, j.exp ).empty() )
                sim_fail( "no-recovery", "%s: the intact file is not loaded any more after failed loads", desc.c_str() );
        }
        sim_exit_normally();
    }

    SimScenario s1( "file_roundtrip", roundtrip );
    SimScenario s2( "file_savefail", savefail );
    SimScenario s3( "file_badload", badload );
    SimScenario s4( "file_crash", crash );
    SimScenario s5( "file_concurrent", concurrent );
}
