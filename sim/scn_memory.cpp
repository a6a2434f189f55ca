// Scenarios for the CPU memory pool and image objects: C11 - C13
#include "rt.h"
#include "image_buffer.h"
#include "memory/cpu_memory.h"
#include "ops.h"
#include <map>
#include <mutex>
#include <new>
#include <stdexcept>
#include <thread>
#include <vector>

namespace
{
    typedef cpu_Memory::MemoryAllocator Alloc;

    struct Block
    {
        uint8_t * p = nullptr;
        size_t bytes = 0;
        uint8_t mark = 0;
        int type = 0; // element size 1, 2, 4
    };

    // all blocks in use; touched only in SimRt regions
    struct Model
    {
        std::map<uintptr_t, size_t> live;

        void add( const Block & b, const char * who )
        {
            const uintptr_t a = reinterpret_cast<uintptr_t>( b.p );
            auto i = live.upper_bound( a );
            if ( i != live.end() && i->first < a + b.bytes )
                sim_fail( "overlap", "%s: a block of %zu bytes overlaps a live block of %zu bytes", who, b.bytes, i->second );
            if ( i != live.begin() ) {
                --i;
                if ( i->first + i->second > a )
                    sim_fail( "overlap", "%s: a block of %zu bytes starts %zu bytes inside of a live block of %zu bytes", who, b.bytes, size_t( a - i->first ), i->second );
            }
            if ( b.bytes )
                live[a] = b.bytes;
        }
        void remove( const Block & b )
        {
            live.erase( reinterpret_cast<uintptr_t>( b.p ) );
        }
    };

    struct World
    {
        Alloc * pool = nullptr;
        Model model;
        std::mutex boxLock;
        std::vector<Block> box; // blocks given away to another thread
        bool faults = false;
    };

    void put( World & w, Block & b, uint8_t mark )
    {
        b.mark = mark;
        if ( !b.bytes )
            return;
        sim_write( b.p, b.bytes );
        SimRt rt;
        memset( b.p, mark, b.bytes );
        (void)w;
    }

    void verify( const Block & b )
    {
        if ( !b.bytes )
            return;
        sim_read( b.p, b.bytes );
        SimRt rt;
        for ( size_t i = 0; i < b.bytes; ++i )
            if ( b.p[i] != b.mark )
                sim_fail( "content-lost", "byte %zu of a live block of %zu bytes has changed", i, b.bytes );
    }

    // false: the request was refused with an exception
    bool take( World & w, Block & b, size_t count, int type )
    {
        b = Block();
        b.type = type;
        b.bytes = count * size_t( type );
        try {
            SimSut sut;
            if ( type == 1 )
                b.p = w.pool->allocate<uint8_t>( count );
            else if ( type == 2 )
                b.p = reinterpret_cast<uint8_t *>( w.pool->allocate<uint16_t>( count ) );
            else
                b.p = reinterpret_cast<uint8_t *>( w.pool->allocate<uint32_t>( count ) );
        }
        catch ( const std::bad_alloc & ) {
            if ( !w.faults )
                sim_fail( "unexpected-exception", "allocation of %zu elements fails although there is memory", count );
            return false;
        }
        SimRt rt;
        if ( !b.p )
            sim_fail( "null-block", "allocation returns a null pointer" );
        if ( reinterpret_cast<uintptr_t>( b.p ) % uintptr_t( type ) )
            sim_fail( "alignment", "a block of %d byte elements has an odd address", type );
        if ( b.bytes && !sim_heap_valid( b.p, b.bytes ) )
            sim_fail( "foreign-memory", "a block of %zu bytes is not backed by memory of the process", b.bytes );
        w.model.add( b, "allocate" );
        return true;
    }

    void give( World & w, Block & b )
    {
        verify( b );
        {
            SimRt rt;
            w.model.remove( b );
        }
        try {
            SimSut sut;
            if ( b.type == 1 )
                w.pool->free( b.p );
            else if ( b.type == 2 )
                w.pool->free( reinterpret_cast<uint16_t *>( b.p ) );
            else
                w.pool->free( reinterpret_cast<uint32_t *>( b.p ) );
        }
        catch ( ... ) {
            SimRt rt;
            sim_fail( "free-throws", "releasing a block throws" );
        }
        b.p = nullptr;
    }

    size_t reserveSize()
    {
        switch ( sim_choose( 5 ) ) {
        case 0:
            return size_t( 1 ) << ( 4 + sim_choose( 8 ) );
        case 1:
            return ( size_t( 1 ) << ( 5 + sim_choose( 7 ) ) ) + ( size_t( 1 ) << sim_choose( 5 ) );
        case 2:
            return ( size_t( 1 ) << ( 5 + sim_choose( 7 ) ) ) - 1;
        default:
            return 2 + sim_choose( 3000 );
        }
    }

    size_t blockSize( size_t scale )
    {
        switch ( sim_choose( 6 ) ) {
        case 0:
            return size_t( 1 ) << sim_choose( 9 );
        case 1:
            return ( size_t( 1 ) << sim_choose( 9 ) ) + 1;
        case 2:
            return 1 + sim_choose( 8 );
        case 3:
            return scale / 2 + sim_choose( 5 );
        case 4:
            return scale + sim_choose( 3 );
        default:
            return 1 + sim_choose( uint32_t( scale / 3 + 1 ) );
        }
    }

    // true: done; false: refused
    bool reserve( World & w, size_t n )
    {
        try {
            SimSut sut;
            w.pool->reserve( n );
            return true;
        }
        catch ( const std::logic_error & ) {
            return false;
        }
        catch ( const std::bad_alloc & ) {
            if ( !w.faults )
                sim_fail( "unexpected-exception", "reserving %zu bytes fails although there is memory", n );
            return false;
        }
    }

    // nothing is in use: the whole reserved memory can be allocated again
    void wholeAgain( World & w, size_t size )
    {
        uintptr_t base = 0;
        size_t bytes = 0;
        std::vector<Block> all;
        for ( int k = 62; k >= 0; --k ) {
            size_t part = size_t( 1 ) << k;
            if ( !( size & part ) )
                continue;
            if ( part == size )
                --part; // a request for everything is not served by the pool
            if ( ( part & ( part - 1 ) ) == 0 && part == size )
                continue;
            if ( part == 0 )
                continue;
            Block b;
            if ( !take( w, b, part, 1 ) )
                sim_fail( "no-recovery", "allocation of %zu bytes fails", part );
            SimRt rt;
            uintptr_t p0 = 0;
            size_t n0 = 0;
            if ( !sim_block_of( b.p, &p0, &n0 ) )
                sim_fail( "foreign-memory", "a block is not in the heap" );
            if ( !base ) {
                base = p0;
                bytes = n0;
                if ( n0 < size )
                    sim_fail( "fragmented", "%zu of the reserved %zu bytes cannot be allocated as one block again", part, size );
            }
            else if ( p0 != base )
                sim_fail( "fragmented", "a part of %zu of the reserved %zu bytes cannot be allocated as one block again", part, size );
            all.push_back( b );
        }
        (void)bytes;
        for ( Block & b : all )
            put( w, b, 0x5a );
        for ( Block & b : all )
            give( w, b );
    }

    void pool( bool faults )
    {
        const bool global = sim_choose( 3 ) == 2;
        World * w;
        {
            SimRt rt;
            w = new World;
        }
        w->faults = faults;
        std::unique_ptr<Alloc> own;
        if ( global )
            w->pool = &Alloc::instance();
        else {
            own.reset( new Alloc );
            w->pool = own.get();
        }
        size_t scale = reserveSize();
        if ( sim_choose( 6 ) )
            if ( !reserve( *w, scale ) )
                sim_fail( "reserve-fails", "the first reservation is refused" );
        const uint32_t n = 1 + sim_choose( 4 );
        struct Op
        {
            uint32_t what;
            size_t size;
            int type;
            uint32_t which;
        };
        std::vector<std::vector<Op>> plan( n );
        const bool resizer = sim_choose( 3 ) == 0;
        for ( auto & v : plan ) {
            v.resize( 2 + sim_choose( 12 ) );
            for ( Op & o : v ) {
                o.what = sim_choose( 8 );
                if ( o.what == 7 && !resizer )
                    o.what = 0;
                o.size = o.what == 7 ? reserveSize() : blockSize( scale );
                o.type = 1 << ( sim_choose( 4 ) == 3 ? sim_choose( 3 ) : 0 );
                o.size = ( o.size + size_t( o.type ) - 1 ) / size_t( o.type );
                o.which = sim_choose( 16 );
                if ( o.what == 0 && sim_choose( 40 ) == 7 ) { // a size which overflows
                    o.size = ( ~size_t( 0 ) ) / size_t( o.type ) + 2 + sim_choose( 9 );
                    o.what = 8;
                    if ( o.type == 1 )
                        o.what = 0, o.size = 1;
                }
            }
        }
        std::vector<std::vector<Block>> left( n );
        auto run = [&plan, &left, w]( uint32_t id ) {
            std::vector<Block> & mine = left[id];
            for ( const Op & o : plan[id] ) {
                switch ( o.what ) {
                case 0:
                case 1:
                case 2:
                case 3: {
                    Block b;
                    if ( take( *w, b, o.size, o.type ) ) {
                        put( *w, b, uint8_t( id * 64 + mine.size() * 3 + 1 ) );
                        SimRt rt;
                        mine.push_back( b );
                    }
                    break;
                }
                case 4:
                case 5:
                    if ( !mine.empty() ) {
                        Block b;
                        {
                            SimRt rt;
                            b = mine[o.which % mine.size()];
                            mine.erase( mine.begin() + long( o.which % mine.size() ) );
                        }
                        give( *w, b );
                    }
                    break;
                case 6: { // pass a block to another thread
                    Block b;
                    {
                        std::lock_guard<std::mutex> g( w->boxLock );
                        SimRt rt;
                        if ( !w->box.empty() ) {
                            b = w->box.back();
                            w->box.pop_back();
                        }
                        if ( !mine.empty() ) {
                            w->box.push_back( mine.back() );
                            mine.pop_back();
                        }
                    }
                    if ( b.p )
                        give( *w, b );
                    break;
                }
                case 7:
                    if ( reserve( *w, o.size ) )
                        sim_count( "probe.reserved-while-shared", 1 );
                    else
                        sim_count( "probe.reserve-refused", 1 );
                    break;
                case 8:
                    try {
                        SimSut sut;
                        void * p = o.type == 2 ? static_cast<void *>( w->pool->allocate<uint16_t>( o.size ) ) : static_cast<void *>( w->pool->allocate<uint32_t>( o.size ) );
                        sim_fail( "impossible-size", "%zu elements of %d bytes were allocated at %p", o.size, o.type, p );
                    }
                    catch ( const std::bad_alloc & ) {
                    }
                    break;
                }
                for ( const Block & b : mine )
                    if ( b.bytes < 64 )
                        verify( b );
            }
        };
        if ( faults ) {
            if ( sim_choose( 2 ) )
                sim_alloc_faults( 2 + sim_choose( 12 ) );
            else
                sim_alloc_fail_at( 1 + sim_choose( 20 ) );
        }
        std::vector<std::thread> t;
        for ( uint32_t i = 1; i < n; ++i )
            t.emplace_back( run, i );
        run( 0 );
        for ( std::thread & x : t )
            x.join();
        sim_faults_stop();
        w->faults = false;
        // everything is still there and is released in any order
        std::vector<Block> rest;
        {
            SimRt rt;
            rest = w->box;
            for ( auto & v : left )
                rest.insert( rest.end(), v.begin(), v.end() );
        }
        // threads still get memory
        for ( uint32_t i = sim_choose( 3 ); i; --i ) {
            Block b;
            take( *w, b, blockSize( scale ), 1 );
            put( *w, b, 0x77 );
            SimRt rt;
            rest.push_back( b );
        }
        while ( !rest.empty() ) {
            Block b;
            {
                SimRt rt;
                const size_t k = sim_choose( uint32_t( rest.size() ) );
                b = rest[k];
                rest.erase( rest.begin() + long( k ) );
            }
            give( *w, b );
        }
        {
            SimRt rt;
            if ( !w->model.live.empty() )
                sim_fail( "internal", "model" );
        }
        size_t fin = 0;
        if ( sim_choose( 4 ) == 0 ) {
            fin = reserveSize();
            if ( !reserve( *w, fin ) )
                sim_fail( "reserve-fails", "nothing is in use but a reservation of %zu bytes is refused", fin );
            wholeAgain( *w, fin );
        }
        else if ( !resizer && plan.size() ) {
            // the initial reservation is still in force
            if ( !reserve( *w, scale ) )
                sim_fail( "reserve-fails", "nothing is in use but a reservation of %zu bytes is refused", scale );
            wholeAgain( *w, scale );
        }
        if ( global )
            sim_exit_normally();
        {
            SimSut sut;
            own.reset();
        }
        SimRt rt;
        char b[400];
        if ( sim_live_blocks( 0, b, sizeof b ) )
            sim_fail( "leak", "the allocator did not release:%s", b );
    }

    void c11() { pool( false ); }
    void c12() { pool( true ); }

    // ------------------------------------------------------------------------------------------------------------------ images
    template <typename T>
    struct Img
    {
        penguinV::ImageTemplate<T> i;
        // model
        uint32_t w = 0, h = 0, cc = 1, al = 1;
        std::vector<T> px; // known contents; empty: any
        uint8_t type = 0;
        bool empty() const { return w == 0; }
        uint32_t row() const { return ( w * cc + al - 1 ) / al * al; }
    };

    // images of another device: their memory comes from an allocator of their own
    const uint8_t foreignType = 5;
    struct ForeignMemory
    {
        std::map<const void *, size_t> live; // touched only inside SimRt regions
        uint64_t failed = 0;
        bool faults = false;
    };
    ForeignMemory & foreignMemory()
    {
        static ForeignMemory * m = nullptr;
        if ( !m ) {
            SimRt rt;
            m = new ForeignMemory();
        }
        return *m;
    }

    template <typename T>
    struct ForeignImage : public penguinV::ImageTemplate<T>
    {
        ForeignImage()
        {
            this->_setType(
                foreignType,
                []( size_t size ) {
                    bool fail;
                    {
                        SimRt rt;
                        fail = foreignMemory().faults && sim_chance( ST_OPS, 1, 6 );
                        if ( fail ) {
                            ++foreignMemory().failed;
                            sim_count( "fault.device_memory", 1 );
                        }
                    }
                    if ( fail )
                        throw penguinVException( "no device memory" );
                    T * p = new T[size];
                    SimRt rt;
                    foreignMemory().live[p] = size * sizeof( T );
                    return p;
                },
                []( T * p ) {
                    {
                        SimRt rt;
                        if ( !foreignMemory().live.erase( p ) )
                            sim_fail( "wrong-allocator", "memory of another origin is released as memory of the device" );
                    }
                    delete[] p;
                },
                []( T * out, T * in, size_t size ) {
                    {
                        SimRt rt;
                        auto o = foreignMemory().live.find( out ), i = foreignMemory().live.find( in );
                        if ( o == foreignMemory().live.end() || i == foreignMemory().live.end() || o->second < size || i->second < size )
                            sim_fail( "wrong-allocator", "a copy on the device of %zu bytes is not within its memory", size );
                    }
                    memcpy( out, in, size );
                },
                []( T * data, T value, size_t size ) {
                    {
                        SimRt rt;
                        auto o = foreignMemory().live.find( data );
                        if ( o == foreignMemory().live.end() || o->second < size )
                            sim_fail( "wrong-allocator", "a fill on the device of %zu bytes is not within its memory", size );
                    }
                    std::fill( data, data + size / sizeof( T ), value );
                } );
        }
    };

    template <typename T>
    void consistent( const Img<T> & m, const char * op, bool failed )
    {
        const penguinV::ImageTemplate<T> & i = m.i;
        const uint8_t * p = reinterpret_cast<const uint8_t *>( i.data() );
        SimRt rt;
        if ( i.empty() != ( i.data() == nullptr ) )
            sim_fail( "geometry", "%s%s: empty() does not tell whether there is data", failed ? "failed " : "", op );
        if ( i.empty() ) {
            if ( i.width() || i.height() || i.rowSize() )
                sim_fail( "geometry", "%s%s: an image without data reports %ux%u pixels and a row size of %u", failed ? "failed " : "", op, i.width(), i.height(), i.rowSize() );
        }
        else {
            const uint64_t row = ( uint64_t( i.width() ) * i.colorCount() + i.alignment() - 1 ) / i.alignment() * i.alignment();
            if ( i.rowSize() != row )
                sim_fail( "geometry", "%s%s: %u pixels of %u colours aligned to %u have a row size of %u", failed ? "failed " : "", op, i.width(), i.colorCount(), i.alignment(),
                          i.rowSize() );
            const auto dev = foreignMemory().live.find( i.data() );
            if ( ( dev != foreignMemory().live.end() ) != ( i.type() == foreignType ) )
                sim_fail( "geometry", "%s%s: an image of type %u holds memory of another type", failed ? "failed " : "", op, i.type() );
            if ( dev != foreignMemory().live.end() && dev->second < size_t( i.height() ) * i.rowSize() * sizeof( T ) )
                sim_fail( "geometry", "%s%s: the device memory of an image is too small", failed ? "failed " : "", op );
            if ( !sim_heap_valid( p, size_t( i.height() ) * i.rowSize() * sizeof( T ) ) )
                sim_fail( "geometry", "%s%s: %ux%ux%u pixels with a row size of %u are not backed by memory", failed ? "failed " : "", op, i.width(), i.height(),
                          i.colorCount(), i.rowSize() );
        }
    }

    template <typename T>
    bool asModel( const Img<T> & m, std::string & why )
    {
        const penguinV::ImageTemplate<T> & i = m.i;
        char b[200];
        {
            SimRt rt;
            if ( i.type() != m.type ) {
                snprintf( b, sizeof b, "image type %u instead of %u", i.type(), m.type );
                why = b;
                return false;
            }
            if ( i.width() != m.w || i.height() != m.h || i.colorCount() != m.cc || i.alignment() != m.al || i.empty() != m.empty() ) {
                snprintf( b, sizeof b, "%ux%ux%u/%u%s instead of %ux%ux%u/%u", i.width(), i.height(), i.colorCount(), i.alignment(), i.empty() ? " (no data)" : "", m.w, m.h,
                          m.cc, m.al );
                why = b;
                return false;
            }
        }
        if ( m.px.empty() )
            return true;
        sim_read( i.data(), m.px.size() * sizeof( T ) );
        SimRt rt;
        for ( size_t k = 0; k < m.px.size(); ++k )
            if ( i.data()[k] != m.px[k] ) {
                snprintf( b, sizeof b, "element %zu is %u instead of %u", k, unsigned( i.data()[k] ), unsigned( m.px[k] ) );
                why = b;
                return false;
            }
        return true;
    }

    template <typename T>
    void fillIn( Img<T> & m )
    {
        if ( m.empty() )
            return;
        sim_write( m.i.data(), size_t( m.row() ) * m.h * sizeof( T ) );
        SimRt rt;
        ops::Rng r( sim_choose( 1u << 20 ) );
        m.px.resize( size_t( m.row() ) * m.h );
        for ( T & v : m.px )
            v = T( r.next() );
        memcpy( m.i.data(), m.px.data(), m.px.size() * sizeof( T ) );
    }

    template <typename T>
    void setModel( Img<T> & m, uint32_t w, uint32_t h, uint32_t cc, uint32_t al )
    {
        SimRt rt;
        m.w = w && h ? w : 0;
        m.h = w && h ? h : 0;
        m.cc = cc;
        m.al = al;
        m.px.clear();
    }

    uint32_t dimension( bool & huge )
    {
        switch ( sim_choose( 12 ) ) {
        case 0:
            return 0;
        case 1: {
            static const uint32_t big[] = { 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x55555556u, 0x40000000u, 0x10000u, 0x20000u };
            huge = true;
            return big[sim_choose( 7 )];
        }
        default:
            return 1 + sim_choose( 14 );
        }
    }

    template <typename T>
    void images( bool twice )
    {
        typedef penguinV::ImageTemplate<T> Image;
        (void)twice;
        const uint32_t usePool = sim_choose( 3 );
        bool reserved = false;
        if ( usePool ) {
            SimSut sut;
            Alloc::instance().reserve( 64 + sim_choose( usePool == 1 ? 600 : 4000 ) );
            reserved = true;
        }
        (void)reserved;
        sim_mem_limit( 1u << 20 );
        std::vector<std::unique_ptr<Img<T>>> v;
        {
            SimRt rt;
            for ( int i = 0; i < 4; ++i )
                v.emplace_back();
        }
        for ( auto & p : v )
            p.reset( new Img<T> );
        const uint32_t types = sim_choose( 3 ); // 0: no foreign images
        for ( auto & p : v )
            if ( types && sim_choose( 2 ) ) {
                SimSut sut;
                ForeignImage<T> x;
                p->i.swap( x );
                p->type = foreignType;
            }
        if ( sim_choose( 8 ) )
            sim_alloc_faults( 2 + sim_choose( 10 ) );
        if ( types == 2 )
            foreignMemory().faults = true;
        static const uint8_t als[] = { 1, 2, 3, 4, 8, 32, 255, 0 };
        static const uint8_t ccs[] = { 1, 3, 4, 2, 0, 255 };
        const uint32_t n = 3 + sim_choose( 14 );
        for ( uint32_t step = 0; step < n; ++step ) {
            Img<T> & a = *v[sim_choose( 4 )];
            Img<T> & b = *v[sim_choose( 4 )];
            const uint32_t op = sim_choose( 15 );
            static const char * const names[] = { "resize", "construction", "copy construction", "copy assignment", "move assignment", "move construction", "clear", "setColorCount",
                                                  "setAlignment", "fill", "swap", "generate", "mutate", "assign", "copy" };
            bool huge = false;
            const uint32_t w = dimension( huge ), h = dimension( huge );
            const uint8_t cc = ccs[sim_choose( 6 )], al = als[sim_choose( 8 )];
            bool failed = false;
            const uint64_t before = sim_alloc_failed() + foreignMemory().failed;
            const bool otherType = ( op == 3 || op == 14 ) && a.type != b.type;
            const uint64_t serial = sim_alloc_serial();
            (void)serial;
            const uint8_t value = uint8_t( sim_choose( 256 ) );
            T * raw = nullptr;
            bool viaPool = true;
            size_t rawSize = 0;
            if ( op == 13 && !huge && w && h && cc && al ) { // memory for assign(): the image becomes its owner
                rawSize = ( size_t( w ) * cc + al - 1 ) / al * al * h;
                try {
                    SimSut sut;
                    if ( a.type == foreignType ) {
                        raw = new T[rawSize];
                        SimRt rt;
                        foreignMemory().live[raw] = rawSize * sizeof( T );
                    }
                    else
                        raw = Alloc::instance().template allocate<T>( rawSize );
                }
                catch ( const std::bad_alloc & ) {
                    viaPool = false;
                }
            }
            // which image is written
            try {
                SimSut sut;
                switch ( op ) {
                case 0:
                    a.i.resize( w, h );
                    break;
                case 1:
                    a.i = Image( w, h, cc, al );
                    break;
                case 2: {
                    Image x( b.i );
                    a.i.swap( x );
                    break;
                }
                case 3:
                    a.i = b.i;
                    break;
                case 4:
                    a.i = std::move( b.i );
                    break;
                case 5: {
                    Image x( std::move( b.i ) );
                    a.i.swap( x );
                    break;
                }
                case 6:
                    a.i.clear();
                    break;
                case 7:
                    a.i.setColorCount( cc );
                    break;
                case 8:
                    a.i.setAlignment( al );
                    break;
                case 9:
                    a.i.fill( T( value ) );
                    break;
                case 10:
                    a.i.swap( b.i );
                    break;
                case 11: {
                    Image x = b.i.generate( w, h, cc, al );
                    a.i.swap( x );
                    break;
                }
                case 12:
                    if ( a.i.mutate( w, h, cc, al ) )
                        setModel( a, w, h, cc, al );
                    break;
                case 13:
                    if ( viaPool )
                        a.i.assign( raw, w, h, cc, al );
                    break;
                case 14:
                    a.i.copy( b.i );
                    break;
                }
            }
            catch ( const std::exception & e ) {
                failed = true;
                SimRt rt;
                sim_event( "failed", op, step );
                if ( before == sim_alloc_failed() + foreignMemory().failed && !huge && op != 13 && !otherType )
                    sim_fail( "unexpected-exception", "%s: %s", names[op], e.what() );
            }
            if ( failed && op == 13 && raw ) { // not taken over
                SimSut sut;
                if ( a.type == foreignType ) {
                    {
                        SimRt rt;
                        foreignMemory().live.erase( raw );
                    }
                    delete[] raw;
                }
                else
                    Alloc::instance().free( raw );
            }
            if ( otherType && !failed )
                sim_fail( "types-mixed", "%s between images of different types is not rejected", names[op] );
            consistent( a, names[op], failed );
            consistent( b, names[op], failed );
            std::string why;
            if ( failed ) {
                sim_count( "probe.failed-image-operation", 1 );
                // the target: as before or without data
                if ( a.i.empty() ) {
                    setModel( a, 0, 0, a.i.colorCount(), a.i.alignment() );
                }
                else if ( !asModel( a, why ) )
                    sim_fail( "half-changed", "failed %s: the image is neither empty nor as before: %s", names[op], why.c_str() );
                if ( &a != &b && !asModel( b, why ) )
                    sim_fail( "source-changed", "failed %s changed its source: %s", names[op], why.c_str() );
            }
            else {
                const bool newData = ( op == 0 && w && h && ( w != a.w || h != a.h ) ) || op == 1 || op == 11;
                switch ( op ) {
                case 0:
                    if ( newData )
                        setModel( a, w, h, a.cc, a.al );
                    break;
                case 1:
                case 11:
                    setModel( a, w, h, cc ? cc : 1, al ? al : 1 );
                    a.type = op == 11 ? b.type : 0;
                    break;
                case 2:
                case 3:
                case 14:
                    if ( &a != &b ) {
                        setModel( a, b.w, b.h, b.cc, b.al );
                        SimRt rt;
                        a.type = b.type;
                        a.px = b.px;
                    }
                    break;
                case 4:
                case 5:
                    if ( &a != &b ) { // the source is left in any valid state
                        {
                            SimRt rt;
                            a.w = b.w;
                            a.h = b.h;
                            a.cc = b.cc;
                            a.al = b.al;
                            a.type = b.type;
                            a.px = b.px;
                        }
                        b.type = b.i.type();
                        setModel( b, b.i.width(), b.i.height(), b.i.colorCount(), b.i.alignment() );
                    }
                    break;
                case 6:
                    setModel( a, 0, 0, a.cc, a.al );
                    break;
                case 7:
                    if ( cc && cc != a.cc )
                        setModel( a, 0, 0, cc, a.al );
                    break;
                case 8:
                    if ( al && al != a.al )
                        setModel( a, 0, 0, a.cc, al );
                    break;
                case 9:
                    if ( !a.empty() ) {
                        SimRt rt;
                        a.px.assign( size_t( a.row() ) * a.h, T( value ) );
                    }
                    break;
                case 10:
                    if ( &a != &b ) {
                        SimRt rt;
                        std::swap( a.w, b.w );
                        std::swap( a.h, b.h );
                        std::swap( a.cc, b.cc );
                        std::swap( a.al, b.al );
                        std::swap( a.type, b.type );
                        std::swap( a.px, b.px );
                    }
                    break;
                case 13:
                    if ( raw )
                        setModel( a, w, h, cc, al );
                    break;
                default:
                    break;
                }
                if ( !asModel( a, why ) )
                    sim_fail( "wrong-image", "%s: %s", names[op], why.c_str() );
                if ( &a != &b && !asModel( b, why ) )
                    sim_fail( "source-changed", "%s changed the other image: %s", names[op], why.c_str() );
                if ( a.px.empty() )
                    fillIn( a );
                if ( &a != &b && b.px.empty() )
                    fillIn( b );
            }
            // nobody else noticed
            for ( auto & o : v )
                if ( !asModel( *o, why ) )
                    sim_fail( "other-changed", "%s%s changed an unrelated image: %s", failed ? "failed " : "", names[op], why.c_str() );
        }
        sim_faults_stop();
        foreignMemory().faults = false;
        // every image can be used again
        for ( auto & o : v ) {
            const uint32_t w = 1 + sim_choose( 10 ), h = 1 + sim_choose( 10 );
            {
                SimSut sut;
                o->i.resize( w, h );
            }
            setModel( *o, w, h, o->cc, o->al );
            std::string why;
            consistent( *o, "resize afterwards", false );
            if ( !asModel( *o, why ) )
                sim_fail( "no-recovery", "an image cannot be resized after a failure: %s", why.c_str() );
            fillIn( *o );
        }
        std::string why;
        for ( auto & o : v )
            if ( !asModel( *o, why ) )
                sim_fail( "no-recovery", "an image loses its contents: %s", why.c_str() );
        {
            SimSut sut;
            for ( auto & o : v )
                o.reset();
        }
        if ( !foreignMemory().live.empty() )
            sim_fail( "leak", "device memory of %zu images is not released", foreignMemory().live.size() );
        if ( !usePool ) {
            SimRt rt;
            char b[400];
            if ( sim_live_blocks( 0, b, sizeof b ) )
                sim_fail( "leak", "memory of images is not released:%s", b );
        }
        else { // everything went back to the pool
            SimSut sut;
            try {
                Alloc::instance().reserve( 5000 );
            }
            catch ( const std::logic_error & ) {
                sim_fail( "leak", "memory of images was not returned to the pool" );
            }
        }
        sim_exit_normally();
    }

    void c13()
    {
        if ( sim_choose( 4 ) == 3 )
            images<uint16_t>( false );
        else
            images<uint8_t>( false );
    }

    SimScenario s1( "memory_pool", c11 );
    SimScenario s2( "memory_failures", c12 );
    SimScenario s3( "memory_images", c13 );
}
