// SimDisk, see disk.h. Streams are real glibc streams with real buffering (fopencookie); libstdc++ works on the descriptor directly.
#include "disk.h"
#include "rt_int.h"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace
{
    struct Node
    {
        DiskBytes d;
        int mode = 0;
        uint32_t id = 0;
    };
    typedef std::shared_ptr<Node> NodeP;

    struct Handle
    {
        NodeP node;
        std::string path;
        uint64_t pos = 0;
        bool rd = false, wr = false, append = false, used = false;
        FILE * file = nullptr;
        std::vector<std::pair<size_t, DiskBytes>> undo; // what the last writes have replaced: lost if the close fails
        size_t undoSize = 0;
    };

    struct Entry // of the journal
    {
        uint8_t kind; // 0 write, 1 truncate to size, 2 link path to node, 3 unlink path, 4 rename
        uint32_t node = 0;
        uint64_t off = 0;
        DiskBytes d;
        std::string path, path2;
    };

    struct Disk
    {
        std::map<std::string, NodeP> dir;
        std::vector<Handle> h;
        DiskFaults f;
        uint32_t ops = 0, failed = 0, nextId = 1;
        bool faults = false, journal = false;
        std::vector<Entry> log;
        std::map<std::string, DiskBytes> start; // content when the journal started
        std::map<std::string, uint32_t> startId;
        uint32_t failedKind = 99;
    };
    Disk * g_disk;
    Disk & D()
    {
        if ( !g_disk )
            g_disk = new Disk;
        return *g_disk;
    }

    const int FD0 = 1 << 20;

    enum Op
    {
        OP_OPEN,
        OP_READ,
        OP_WRITE,
        OP_CLOSE,
        OP_SEEK,
        OP_STAT,
        OP_NAME
    };

    template <typename T>
    T real( const char * n )
    {
        return reinterpret_cast<T>( rt_real( n ) );
    }

    bool mine()
    {
        return sim_self_active();
    }
    bool isMine( int fd )
    {
        return fd >= FD0 && g_disk && size_t( fd - FD0 ) < g_disk->h.size();
    }

    struct Rt
    {
        Rt() { rt_enter(); }
        ~Rt() { rt_leave(); }
    };

    void hash( int op, uint64_t a )
    {
        sim_event( "disk", uint64_t( op ), a );
    }

    // every operation starts here; returns the error to report or 0
    int step( int op, int fd )
    {
        Disk & d = D();
        ++d.ops;
        hash( op, uint64_t( fd ) );
        if ( !d.faults )
            return 0;
        if ( d.f.changeAt && d.ops == d.f.changeAt && d.f.change ) {
            d.f.change( d.f.changeArg );
            sim_count( "fault.disk.changed", 1 );
        }
        if ( !rt_faults_on() )
            return 0;
        if ( d.f.delayOneIn && sim_chance( ST_DISK, 1, d.f.delayOneIn ) ) {
            sim_count( "fault.disk.delay", 1 );
            for ( int i = 0; i < 8; ++i )
                sim_event( "delay", uint64_t( i ), 0 );
        }
        bool fail = d.f.failAt && d.ops == d.f.failAt;
        if ( d.f.failOn && d.failed && op == int( d.failedKind ) )
            fail = true;
        if ( !fail && d.f.errorOneIn )
            fail = sim_chance( ST_DISK, 1, d.f.errorOneIn );
        if ( !fail )
            return 0;
        static const int errOpen[] = { ENOENT, EMFILE, EACCES, ENOSPC, EIO, ENOMEM };
        static const int errRead[] = { EIO, EISDIR, ESTALE };
        static const int errWrite[] = { ENOSPC, EIO, EDQUOT, EFBIG };
        static const int errClose[] = { EIO, ENOSPC, EDQUOT };
        ++d.failed;
        d.failedKind = uint32_t( op );
        switch ( op ) {
        case OP_OPEN:
            sim_count( "fault.disk.open", 1 );
            return errOpen[sim_draw( ST_DISK, 6 )];
        case OP_READ:
            sim_count( "fault.disk.read", 1 );
            return errRead[sim_draw( ST_DISK, 3 )];
        case OP_WRITE:
            sim_count( "fault.disk.write", 1 );
            return errWrite[sim_draw( ST_DISK, 4 )];
        case OP_CLOSE:
            sim_count( "fault.disk.close", 1 );
            return errClose[sim_draw( ST_DISK, 3 )];
        case OP_SEEK:
            sim_count( "fault.disk.seek", 1 );
            return ESPIPE;
        default:
            sim_count( "fault.disk.other", 1 );
            return EIO;
        }
    }

    bool chance( uint32_t oneIn )
    {
        return oneIn && D().faults && rt_faults_on() && sim_chance( ST_DISK, 1, oneIn );
    }

    uint64_t used()
    {
        uint64_t n = 0;
        for ( auto & e : D().dir )
            n += e.second->d.size();
        return n;
    }

    int find( FILE * f )
    {
        if ( !g_disk )
            return -1;
        for ( size_t i = 0; i < g_disk->h.size(); ++i )
            if ( g_disk->h[i].used && g_disk->h[i].file == f )
                return int( i );
        return -1;
    }

    NodeP newNode( const std::string & path )
    {
        Disk & d = D();
        NodeP n = std::make_shared<Node>();
        n->id = d.nextId++;
        d.dir[path] = n;
        if ( d.journal ) {
            Entry e;
            e.kind = 2;
            e.node = n->id;
            e.path = path;
            d.log.push_back( e );
        }
        return n;
    }

    void truncate( NodeP & n, uint64_t size )
    {
        n->d.resize( size );
        Disk & d = D();
        if ( d.journal ) {
            Entry e;
            e.kind = 1;
            e.node = n->id;
            e.off = size;
            d.log.push_back( e );
        }
    }

    int doOpen( const char * path, int flags )
    {
        sim_sync_point( "disk", nullptr );
        Rt rt;
        Disk & d = D();
        const int err = step( OP_OPEN, 0 );
        if ( err ) {
            errno = err;
            return -1;
        }
        const std::string p( path );
        auto i = d.dir.find( p );
        const bool wr = ( flags & O_ACCMODE ) != O_RDONLY;
        if ( i == d.dir.end() && !( flags & O_CREAT ) ) {
            errno = ENOENT;
            return -1;
        }
        if ( i != d.dir.end() && ( flags & O_CREAT ) && ( flags & O_EXCL ) ) {
            errno = EEXIST;
            return -1;
        }
        if ( i != d.dir.end() && ( i->second->mode == 2 || ( i->second->mode == 1 && wr ) ) ) {
            errno = i->second->mode == 1 ? EISDIR : EACCES;
            return -1;
        }
        NodeP n = i != d.dir.end() ? i->second : newNode( p );
        if ( ( flags & O_TRUNC ) && wr )
            truncate( n, 0 );
        size_t k = 0;
        while ( k < d.h.size() && d.h[k].used )
            ++k;
        if ( k == d.h.size() )
            d.h.emplace_back();
        Handle & h = d.h[k];
        h = Handle();
        h.used = true;
        h.node = n;
        h.path = p;
        h.rd = ( flags & O_ACCMODE ) != O_WRONLY;
        h.wr = wr;
        h.append = flags & O_APPEND;
        return FD0 + int( k );
    }

    ssize_t doRead( int fd, void * buf, size_t n, const int64_t * at, bool stream )
    {
        sim_sync_point( "disk", nullptr );
        ssize_t r;
        {
            Rt rt;
            Disk & d = D();
            Handle & h = d.h[size_t( fd - FD0 )];
            if ( !h.used || !h.rd ) {
                errno = EBADF;
                return -1;
            }
            const int err = h.node->mode == 1 ? EISDIR : step( OP_READ, fd );
            if ( err ) {
                errno = err;
                return -1;
            }
            if ( !stream && chance( d.f.intrOneIn ) ) {
                sim_count( "fault.disk.interrupted", 1 );
                errno = EINTR;
                return -1;
            }
            const uint64_t pos = at ? uint64_t( *at ) : h.pos;
            const uint64_t size = h.node->d.size();
            uint64_t m = pos < size ? size - pos : 0;
            m = m < n ? m : n;
            if ( m > 1 && chance( d.f.shortOneIn ) ) {
                sim_count( "fault.disk.short-read", 1 );
                m = m - 1 - sim_draw( ST_DISK, uint32_t( m - 1 ) );
            }
            if ( m )
                memcpy( buf, h.node->d.data() + pos, m );
            if ( !at )
                h.pos += m;
            r = ssize_t( m );
            hash( 20, m );
        }
        if ( r > 0 )
            sim_write( buf, size_t( r ) );
        return r;
    }

    ssize_t doWrite( int fd, const void * buf, size_t n, const int64_t * at, bool stream )
    {
        sim_sync_point( "disk", nullptr );
        if ( n )
            sim_read( buf, n );
        Rt rt;
        Disk & d = D();
        Handle & h = d.h[size_t( fd - FD0 )];
        if ( !h.used || !h.wr ) {
            errno = EBADF;
            return -1;
        }
        int err = step( OP_WRITE, fd );
        if ( !stream && !err && chance( d.f.intrOneIn ) ) {
            sim_count( "fault.disk.interrupted", 1 );
            errno = EINTR;
            return -1;
        }
        if ( err ) { // what fits may be written before
            errno = err;
            return -1;
        }
        uint64_t m = n;
        if ( m > 1 && chance( d.f.shortOneIn ) ) {
            sim_count( "fault.disk.short-write", 1 );
            m = m - 1 - sim_draw( ST_DISK, uint32_t( m - 1 ) );
        }
        uint64_t pos = h.append ? h.node->d.size() : at ? uint64_t( *at ) : h.pos;
        if ( d.faults && d.f.capacity ) {
            const uint64_t u = used();
            const uint64_t grow = pos + m > h.node->d.size() ? pos + m - h.node->d.size() : 0;
            if ( u + grow > d.f.capacity ) {
                const uint64_t room = d.f.capacity > u ? d.f.capacity - u : 0;
                ++d.failed;
                sim_count( "fault.disk.full", 1 );
                if ( room == 0 || pos != h.node->d.size() ) {
                    errno = ENOSPC;
                    return -1;
                }
                m = room < m ? room : m;
            }
        }
        if ( m == 0 )
            return 0;
        if ( h.undoSize < 8192 ) {
            DiskBytes old;
            if ( pos < h.node->d.size() ) {
                const uint64_t k = h.node->d.size() - pos < m ? h.node->d.size() - pos : m;
                old.assign( h.node->d.begin() + long( pos ), h.node->d.begin() + long( pos + k ) );
            }
            h.undoSize += m;
            h.undo.emplace_back( pos, old );
        }
        else if ( !h.undo.empty() ) { // only the last writes can be lost
            h.undo.clear();
            h.undoSize = 0;
            h.undo.emplace_back( pos, DiskBytes() );
        }
        if ( pos + m > h.node->d.size() )
            h.node->d.resize( pos + m );
        memcpy( h.node->d.data() + pos, buf, m );
        if ( !at )
            h.pos = pos + m;
        if ( d.journal ) {
            Entry e;
            e.kind = 0;
            e.node = h.node->id;
            e.off = pos;
            e.d.assign( static_cast<const uint8_t *>( buf ), static_cast<const uint8_t *>( buf ) + m );
            d.log.push_back( e );
        }
        hash( 21, m );
        return ssize_t( m );
    }

    int doClose( int fd )
    {
        sim_sync_point( "disk", nullptr );
        Rt rt;
        Disk & d = D();
        Handle & h = d.h[size_t( fd - FD0 )];
        if ( !h.used ) {
            errno = EBADF;
            return -1;
        }
        int err = 0;
        if ( h.wr ) {
            err = step( OP_CLOSE, fd );
            if ( err && !h.undo.empty() ) { // a delayed write has failed: its data is lost
                const size_t pos = h.undo.front().first;
                if ( h.node->d.size() > pos )
                    truncate( h.node, pos );
            }
        }
        else
            ++d.ops;
        h = Handle();
        if ( err ) {
            errno = err;
            return -1;
        }
        return 0;
    }

    int64_t doSeek( int fd, int64_t off, int whence )
    {
        sim_sync_point( "disk", nullptr );
        Rt rt;
        Disk & d = D();
        Handle & h = d.h[size_t( fd - FD0 )];
        if ( !h.used ) {
            errno = EBADF;
            return -1;
        }
        const int err = h.node->mode == 3 ? ESPIPE : step( OP_SEEK, fd );
        if ( err ) {
            errno = err;
            return -1;
        }
        int64_t p = whence == SEEK_SET ? off : whence == SEEK_CUR ? int64_t( h.pos ) + off : int64_t( h.node->d.size() ) + off;
        if ( h.node->mode == 1 && whence == SEEK_END )
            p = INT64_MAX; // as Linux does for directories
        if ( p < 0 ) {
            errno = EINVAL;
            return -1;
        }
        h.pos = uint64_t( p );
        return p;
    }

    int doStat( int fd, const char * path, struct stat * st )
    {
        Rt rt;
        NodeP n;
        const int err = step( OP_STAT, 0 );
        if ( err ) {
            errno = err;
            return -1;
        }
        if ( path ) {
            auto i = D().dir.find( path );
            if ( i == D().dir.end() ) {
                errno = ENOENT;
                return -1;
            }
            n = i->second;
        }
        else
            n = D().h[size_t( fd - FD0 )].node;
        if ( !n ) {
            errno = EBADF;
            return -1;
        }
        memset( st, 0, sizeof *st );
        st->st_mode = ( n->mode == 1 ? S_IFDIR : n->mode == 3 ? S_IFIFO : S_IFREG ) | 0644;
        st->st_size = off_t( n->d.size() );
        st->st_nlink = 1;
        st->st_blksize = 4096;
        st->st_blocks = ( st->st_size + 511 ) / 512;
        st->st_ino = n->id;
        return 0;
    }

    int doUnlink( const char * path )
    {
        sim_sync_point( "disk", nullptr );
        Rt rt;
        Disk & d = D();
        const int err = step( OP_NAME, 0 );
        if ( err ) {
            errno = err;
            return -1;
        }
        if ( !d.dir.erase( path ) ) {
            errno = ENOENT;
            return -1;
        }
        if ( d.journal ) {
            Entry e;
            e.kind = 3;
            e.path = path;
            d.log.push_back( e );
        }
        return 0;
    }

    int doRename( const char * from, const char * to )
    {
        sim_sync_point( "disk", nullptr );
        Rt rt;
        Disk & d = D();
        const int err = step( OP_NAME, 0 );
        if ( err ) {
            errno = err;
            return -1;
        }
        auto i = d.dir.find( from );
        if ( i == d.dir.end() ) {
            errno = ENOENT;
            return -1;
        }
        NodeP n = i->second;
        d.dir.erase( i );
        d.dir[to] = n;
        if ( d.journal ) {
            Entry e;
            e.kind = 4;
            e.path = from;
            e.path2 = to;
            d.log.push_back( e );
        }
        return 0;
    }

    // streams
    ssize_t cookieRead( void * c, char * buf, size_t n )
    {
        return doRead( int( reinterpret_cast<intptr_t>( c ) ), buf, n, nullptr, true );
    }
    ssize_t cookieWrite( void * c, const char * buf, size_t n )
    {
        // as a stream of the real library: short writes are continued, a failure ends the loop
        size_t done = 0;
        while ( done < n ) {
            const ssize_t r = doWrite( int( reinterpret_cast<intptr_t>( c ) ), buf + done, n - done, nullptr, true );
            if ( r <= 0 )
                break;
            done += size_t( r );
        }
        return ssize_t( done );
    }
    int cookieSeek( void * c, off64_t * off, int whence )
    {
        const int64_t r = doSeek( int( reinterpret_cast<intptr_t>( c ) ), *off, whence );
        if ( r < 0 )
            return -1;
        *off = r;
        return 0;
    }
    int cookieClose( void * c )
    {
        return doClose( int( reinterpret_cast<intptr_t>( c ) ) );
    }

    FILE * stream( int fd, const char * mode )
    {
        cookie_io_functions_t io = { cookieRead, cookieWrite, cookieSeek, cookieClose };
        FILE * f = fopencookie( reinterpret_cast<void *>( intptr_t( fd ) ), mode, io );
        if ( f )
            D().h[size_t( fd - FD0 )].file = f;
        return f;
    }

    FILE * doFopen( const char * path, const char * mode )
    {
        int fl = O_RDONLY;
        if ( mode[0] == 'w' )
            fl = O_WRONLY | O_CREAT | O_TRUNC;
        else if ( mode[0] == 'a' )
            fl = O_WRONLY | O_CREAT | O_APPEND;
        if ( strchr( mode, '+' ) )
            fl = ( fl & ~O_ACCMODE ) | O_RDWR;
        if ( strchr( mode, 'x' ) )
            fl |= O_EXCL;
        const int fd = doOpen( path, fl );
        if ( fd < 0 )
            return nullptr;
        FILE * f = stream( fd, mode );
        if ( !f ) {
            Rt rt;
            D().h[size_t( fd - FD0 )] = Handle();
            errno = ENOMEM;
        }
        return f;
    }
}

extern "C" {
FILE * fopen( const char * path, const char * mode )
{
    return mine() ? doFopen( path, mode ) : real<FILE * (*)( const char *, const char * )>( "fopen" )( path, mode );
}
FILE * fopen64( const char * path, const char * mode )
{
    return fopen( path, mode );
}
FILE * fdopen( int fd, const char * mode )
{
    return isMine( fd ) ? stream( fd, mode ) : real<FILE * (*)( int, const char * )>( "fdopen" )( fd, mode );
}
int fileno( FILE * f )
{
    const int i = find( f );
    return i >= 0 ? FD0 + i : real<int ( * )( FILE * )>( "fileno" )( f );
}
int open( const char * path, int flags, ... )
{
    va_list ap;
    va_start( ap, flags );
    const int m = va_arg( ap, int );
    va_end( ap );
    return mine() ? doOpen( path, flags ) : real<int ( * )( const char *, int, ... )>( "open" )( path, flags, m );
}
int open64( const char * path, int flags, ... )
{
    va_list ap;
    va_start( ap, flags );
    const int m = va_arg( ap, int );
    va_end( ap );
    return open( path, flags, m );
}
int creat( const char * path, mode_t m )
{
    return open( path, O_WRONLY | O_CREAT | O_TRUNC, m );
}
int close( int fd )
{
    return isMine( fd ) ? doClose( fd ) : real<int ( * )( int )>( "close" )( fd );
}
ssize_t read( int fd, void * b, size_t n )
{
    return isMine( fd ) ? doRead( fd, b, n, nullptr, false ) : real<ssize_t ( * )( int, void *, size_t )>( "read" )( fd, b, n );
}
ssize_t write( int fd, const void * b, size_t n )
{
    return isMine( fd ) ? doWrite( fd, b, n, nullptr, false ) : real<ssize_t ( * )( int, const void *, size_t )>( "write" )( fd, b, n );
}
ssize_t pread( int fd, void * b, size_t n, off_t o )
{
    const int64_t at = o;
    return isMine( fd ) ? doRead( fd, b, n, &at, false ) : real<ssize_t ( * )( int, void *, size_t, off_t )>( "pread" )( fd, b, n, o );
}
ssize_t pwrite( int fd, const void * b, size_t n, off_t o )
{
    const int64_t at = o;
    return isMine( fd ) ? doWrite( fd, b, n, &at, false ) : real<ssize_t ( * )( int, const void *, size_t, off_t )>( "pwrite" )( fd, b, n, o );
}
ssize_t readv( int fd, const struct iovec * v, int n )
{
    if ( !isMine( fd ) )
        return real<ssize_t ( * )( int, const struct iovec *, int )>( "readv" )( fd, v, n );
    ssize_t sum = 0;
    for ( int i = 0; i < n; ++i ) {
        if ( v[i].iov_len == 0 )
            continue;
        const ssize_t r = doRead( fd, v[i].iov_base, v[i].iov_len, nullptr, false );
        if ( r < 0 )
            return sum ? sum : r;
        sum += r;
        if ( size_t( r ) < v[i].iov_len )
            break;
    }
    return sum;
}
ssize_t writev( int fd, const struct iovec * v, int n )
{
    if ( !isMine( fd ) )
        return real<ssize_t ( * )( int, const struct iovec *, int )>( "writev" )( fd, v, n );
    ssize_t sum = 0;
    for ( int i = 0; i < n; ++i ) {
        if ( v[i].iov_len == 0 )
            continue;
        const ssize_t r = doWrite( fd, v[i].iov_base, v[i].iov_len, nullptr, false );
        if ( r < 0 )
            return sum ? sum : r;
        sum += r;
        if ( size_t( r ) < v[i].iov_len )
            break;
    }
    return sum;
}
off_t lseek( int fd, off_t o, int w )
{
    return isMine( fd ) ? doSeek( fd, o, w ) : real<off_t ( * )( int, off_t, int )>( "lseek" )( fd, o, w );
}
off64_t lseek64( int fd, off64_t o, int w )
{
    return lseek( fd, o, w );
}
int fstat( int fd, struct stat * st )
{
    return isMine( fd ) ? doStat( fd, nullptr, st ) : real<int ( * )( int, struct stat * )>( "fstat" )( fd, st );
}
int fstat64( int fd, struct stat64 * st )
{
    return fstat( fd, reinterpret_cast<struct stat *>( st ) );
}
int stat( const char * path, struct stat * st )
{
    return mine() ? doStat( -1, path, st ) : real<int ( * )( const char *, struct stat * )>( "stat" )( path, st );
}
int stat64( const char * path, struct stat64 * st )
{
    return stat( path, reinterpret_cast<struct stat *>( st ) );
}
int access( const char * path, int m )
{
    if ( !mine() )
        return real<int ( * )( const char *, int )>( "access" )( path, m );
    struct stat st;
    return doStat( -1, path, &st );
}
int ftruncate( int fd, off_t n )
{
    if ( !isMine( fd ) )
        return real<int ( * )( int, off_t )>( "ftruncate" )( fd, n );
    Rt rt;
    const int err = step( OP_WRITE, fd );
    if ( err ) {
        errno = err;
        return -1;
    }
    truncate( D().h[size_t( fd - FD0 )].node, uint64_t( n ) );
    return 0;
}
int fsync( int fd )
{
    if ( !isMine( fd ) )
        return real<int ( * )( int )>( "fsync" )( fd );
    Rt rt;
    Handle & h = D().h[size_t( fd - FD0 )];
    const int err = step( OP_WRITE, fd );
    if ( err ) {
        errno = err;
        return -1;
    }
    h.undo.clear();
    h.undoSize = 0;
    return 0;
}
int fdatasync( int fd )
{
    return fsync( fd );
}
int unlink( const char * p )
{
    return mine() ? doUnlink( p ) : real<int ( * )( const char * )>( "unlink" )( p );
}
int remove( const char * p )
{
    return mine() ? doUnlink( p ) : real<int ( * )( const char * )>( "remove" )( p );
}
int rename( const char * a, const char * b )
{
    return mine() ? doRename( a, b ) : real<int ( * )( const char *, const char * )>( "rename" )( a, b );
}
int poll( struct pollfd * p, nfds_t n, int t )
{
    if ( n == 1 && isMine( p[0].fd ) ) {
        p[0].revents = p[0].events;
        return 1;
    }
    return real<int ( * )( struct pollfd *, nfds_t, int )>( "poll" )( p, n, t );
}
int ioctl( int fd, unsigned long req, ... )
{
    va_list ap;
    va_start( ap, req );
    void * a = va_arg( ap, void * );
    va_end( ap );
    if ( !isMine( fd ) )
        return real<int ( * )( int, unsigned long, ... )>( "ioctl" )( fd, req, a );
    if ( req == FIONREAD ) {
        Rt rt;
        const Handle & h = D().h[size_t( fd - FD0 )];
        *static_cast<int *>( a ) = int( h.node->d.size() > h.pos ? h.node->d.size() - h.pos : 0 );
        return 0;
    }
    errno = ENOTTY;
    return -1;
}
} // extern C

// ------------------------------------------------------------------------------------------------ for scenarios
void disk_init_run() {}

void sim_disk_put( const char * path, const void * data, size_t n )
{
    Rt rt;
    Disk & d = D();
    auto i = d.dir.find( path );
    NodeP k = i != d.dir.end() ? i->second : newNode( path );
    k->d.assign( static_cast<const uint8_t *>( data ), static_cast<const uint8_t *>( data ) + n );
}
bool sim_disk_get( const char * path, DiskBytes & out )
{
    Rt rt;
    auto i = D().dir.find( path );
    if ( i == D().dir.end() )
        return false;
    out = i->second->d;
    return true;
}
void sim_disk_remove( const char * path )
{
    Rt rt;
    D().dir.erase( path );
}
void sim_disk_mode( const char * path, int mode )
{
    Rt rt;
    auto i = D().dir.find( path );
    NodeP k = i != D().dir.end() ? i->second : newNode( path );
    k->mode = mode;
}
size_t sim_disk_files()
{
    return D().dir.size();
}
int sim_disk_open_handles()
{
    int n = 0;
    for ( const Handle & h : D().h )
        n += h.used;
    return n;
}
std::string sim_disk_handle_list()
{
    std::string s;
    for ( const Handle & h : D().h )
        if ( h.used )
            s += ( s.empty() ? "" : ", " ) + h.path;
    return s;
}
void sim_disk_faults( const DiskFaults & f )
{
    Rt rt;
    Disk & d = D();
    d.f = f;
    d.faults = true;
    d.ops = d.failed = 0;
    d.failedKind = 99;
}
void sim_disk_no_faults()
{
    D().faults = false;
}
uint32_t sim_disk_ops()
{
    return D().ops;
}
uint32_t sim_disk_failed()
{
    return D().failed;
}
void sim_disk_journal( bool on )
{
    Rt rt;
    Disk & d = D();
    d.journal = on;
    if ( on ) {
        d.log.clear();
        d.start.clear();
        d.startId.clear();
        for ( auto & e : d.dir ) {
            d.start[e.first] = e.second->d;
            d.startId[e.first] = e.second->id;
        }
    }
}
size_t sim_disk_journal_size()
{
    return D().log.size();
}
size_t sim_disk_journal_bytes( size_t i )
{
    const Entry & e = D().log[i];
    return e.kind == 0 ? e.d.size() : 0;
}

namespace
{
    void put( DiskBytes & b, uint64_t v )
    {
        for ( int i = 0; i < 8; ++i )
            b.push_back( uint8_t( v >> ( 8 * i ) ) );
    }
    void put( DiskBytes & b, const DiskBytes & d )
    {
        put( b, d.size() );
        b.insert( b.end(), d.begin(), d.end() );
    }
    void put( DiskBytes & b, const std::string & s )
    {
        put( b, DiskBytes( s.begin(), s.end() ) );
    }
    struct In
    {
        const uint8_t * p;
        size_t n;
        bool bad = false;
        uint64_t u()
        {
            uint64_t v = 0;
            if ( n < 8 ) {
                bad = true;
                return 0;
            }
            for ( int i = 0; i < 8; ++i )
                v |= uint64_t( p[i] ) << ( 8 * i );
            p += 8;
            n -= 8;
            return v;
        }
        DiskBytes d()
        {
            const uint64_t k = u();
            if ( k > n ) {
                bad = true;
                return DiskBytes();
            }
            DiskBytes r( p, p + k );
            p += k;
            n -= k;
            return r;
        }
        std::string s()
        {
            const DiskBytes b = d();
            return std::string( b.begin(), b.end() );
        }
    };
}

DiskBytes sim_disk_journal_export()
{
    Rt rt;
    Disk & d = D();
    DiskBytes b;
    put( b, d.start.size() );
    for ( auto & e : d.start ) {
        put( b, e.first );
        put( b, uint64_t( d.startId[e.first] ) );
        put( b, e.second );
    }
    put( b, d.log.size() );
    for ( const Entry & e : d.log ) {
        put( b, uint64_t( e.kind ) );
        put( b, uint64_t( e.node ) );
        put( b, e.off );
        put( b, e.d );
        put( b, e.path );
        put( b, e.path2 );
    }
    return b;
}
bool sim_disk_journal_import( const uint8_t * p, size_t n )
{
    Rt rt;
    Disk & d = D();
    In in = { p, n };
    d.start.clear();
    d.startId.clear();
    d.log.clear();
    d.journal = false;
    for ( uint64_t k = in.u(); k > 0 && !in.bad; --k ) {
        const std::string path = in.s();
        d.startId[path] = uint32_t( in.u() );
        d.start[path] = in.d();
    }
    for ( uint64_t k = in.u(); k > 0 && !in.bad; --k ) {
        Entry e;
        e.kind = uint8_t( in.u() );
        e.node = uint32_t( in.u() );
        e.off = in.u();
        e.d = in.d();
        e.path = in.s();
        e.path2 = in.s();
        d.log.push_back( e );
    }
    return !in.bad;
}
void sim_disk_journal_apply( size_t entries, size_t torn )
{
    Rt rt;
    Disk & d = D();
    d.dir.clear();
    std::map<uint32_t, NodeP> nodes;
    for ( auto & e : d.start ) {
        NodeP n = std::make_shared<Node>();
        n->id = d.startId[e.first];
        n->d = e.second;
        d.dir[e.first] = n;
        nodes[n->id] = n;
        if ( d.nextId <= n->id )
            d.nextId = n->id + 1;
    }
    for ( size_t i = 0; i < d.log.size() && i <= entries; ++i ) {
        const Entry & e = d.log[i];
        if ( i == entries && ( e.kind != 0 || torn == 0 ) )
            break;
        NodeP n = nodes[e.node];
        switch ( e.kind ) {
        case 0: {
            const size_t m = i == entries && torn < e.d.size() ? torn : e.d.size();
            if ( e.off + m > n->d.size() )
                n->d.resize( e.off + m );
            memcpy( n->d.data() + e.off, e.d.data(), m );
            break;
        }
        case 1:
            n->d.resize( e.off );
            break;
        case 2:
            n = std::make_shared<Node>();
            n->id = e.node;
            nodes[e.node] = n;
            d.dir[e.path] = n;
            if ( d.nextId <= e.node )
                d.nextId = e.node + 1;
            break;
        case 3:
            d.dir.erase( e.path );
            break;
        default:
            if ( d.dir.count( e.path ) ) {
                NodeP k = d.dir[e.path];
                d.dir.erase( e.path );
                d.dir[e.path2] = k;
            }
        }
    }
}
