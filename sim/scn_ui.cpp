// C28: X11 windows on a simulated display server (SimX). The library is the client of an asynchronous server: its requests become visible only
// when they are flushed, contents of windows are lost at any moment, a user types, resizes and closes windows, and the server refuses requests.
#include "rt.h"
#include "ui/x11/x11_ui.h"
#include <X11/Xutil.h>
#include <cstring>
#include <deque>
#include <map>
#include <string>
#include <thread>
#include <type_traits>
#include <vector>

namespace
{
    typedef std::remove_pointer<_XPrivDisplay>::type Dpy;

    const uint32_t BACKGROUND = 0xABCDEFu;

    struct Request
    {
        int kind = 0; // 0 put, 1 pixels, 2 clear with exposure, 3 map, 4 resize, 5 protocols, 6 select, 7 title, 8 destroy, 9 background, 10 clear
        Window w = 0;
        int x = 0, y = 0;
        uint32_t width = 0, height = 0;
        long value = 0;
        std::vector<uint32_t> data;
        std::vector<std::pair<int, int>> points;
        std::string text;
    };

    struct Win
    {
        bool alive = true, mapped = false, close = false;
        long mask = 0;
        uint32_t w = 0, h = 0;
        uint32_t back = BACKGROUND;
        std::vector<uint32_t> px;
        std::string title;
    };

    struct Point
    {
        int x, y;
        uint32_t colour;
    };

    // what a window has to show
    struct Expected
    {
        Window window = 0;
        uint32_t w = 0, h = 0; // 0: no image
        std::vector<uint32_t> px;
        std::vector<Point> points;
        std::string title;
        bool known = true; // false: an operation has failed so this or the previous image could be shown
        uint32_t w2 = 0, h2 = 0;
        std::vector<uint32_t> px2;
    };

    struct Connection
    {
        Dpy d;
        Screen screen;
        Visual visual;
        int gcTag = 0; // its address is the default GC
        uint32_t foreground = 0, gcBack = 0;
        std::deque<Request> out; // not sent yet
        std::deque<XEvent> in; // not read by the client yet
        std::map<Window, Win> win;
        Window next = 100;
        int images = 0;
        bool closed = false, loop = false, closeSent = false, closeRead = false;
        uint32_t budget = 0; // events of a user before he closes a window
        Expected * want = nullptr;
        std::map<std::string, Atom> atom;
        int exposed = 0;
    };

    // per run, all connections of it
    std::vector<Connection *> * g_all = nullptr;
    uint32_t g_refuseOpen = 0, g_refuseImage = 0;
    bool g_refused = false;
    std::map<XImage *, Connection *> * g_images = nullptr;

    Connection & of( Display * d )
    {
        for ( Connection * c : *g_all )
            if ( reinterpret_cast<Display *>( &c->d ) == d ) {
                if ( c->closed )
                    sim_fail( "x-use-after-close", "a closed display connection is used" );
                return *c;
            }
        sim_fail( "x-error", "a request without a connection to a display" );
    }

    void xerror( const char * what, const char * request )
    {
        // the default error handler of Xlib terminates the process
        sim_fail( "x-error", "the display server reports %s for %s: this terminates the process", what, request );
    }

    Win & window( Connection & c, Window w, const char * request )
    {
        std::map<Window, Win>::iterator i = c.win.find( w );
        if ( i == c.win.end() || !i->second.alive )
            xerror( "BadWindow", request );
        return i->second;
    }

    void expose( Connection & c, Window id, Win & w, int x, int y, uint32_t width, uint32_t height )
    {
        if ( !w.mapped || !( w.mask & ExposureMask ) || width == 0 || height == 0 )
            return;
        // an exposure could be reported as several rectangles
        const uint32_t parts = 1 + sim_draw( ST_MISC, 3 );
        for ( uint32_t i = 0; i < parts; ++i ) {
            const uint32_t a = height * i / parts, b = height * ( i + 1 ) / parts;
            XEvent e;
            memset( &e, 0, sizeof e );
            e.type = Expose;
            e.xexpose.display = reinterpret_cast<Display *>( &c.d );
            e.xexpose.window = id;
            e.xexpose.x = x;
            e.xexpose.y = y + int( a );
            e.xexpose.width = int( width );
            e.xexpose.height = int( b - a );
            e.xexpose.count = int( parts - i - 1 );
            c.in.push_back( e );
        }
        ++c.exposed;
    }

    void lose( Win & w, int x, int y, uint32_t width, uint32_t height )
    {
        for ( uint32_t j = 0; j < height; ++j )
            for ( uint32_t i = 0; i < width; ++i )
                if ( x + int( i ) < int( w.w ) && y + int( j ) < int( w.h ) )
                    w.px[( uint32_t( y ) + j ) * w.w + uint32_t( x ) + i] = w.back;
    }

    void execute( Connection & c, Request & r )
    {
        Win & w = window( c, r.w, "a request" );
        switch ( r.kind ) {
        case 0:
            if ( !w.mapped )
                break;
            for ( uint32_t j = 0; j < r.height; ++j )
                for ( uint32_t i = 0; i < r.width; ++i ) {
                    const int x = r.x + int( i ), y = r.y + int( j );
                    if ( x >= 0 && y >= 0 && x < int( w.w ) && y < int( w.h ) )
                        w.px[uint32_t( y ) * w.w + uint32_t( x )] = r.data[j * r.width + i];
                }
            break;
        case 1:
            if ( !w.mapped )
                break;
            for ( const std::pair<int, int> & p : r.points )
                if ( p.first >= 0 && p.second >= 0 && p.first < int( w.w ) && p.second < int( w.h ) )
                    w.px[uint32_t( p.second ) * w.w + uint32_t( p.first )] = uint32_t( r.value ) & 0xFFFFFFu;
            break;
        case 2:
        case 10: {
            const int x = std::max( 0, r.x ), y = std::max( 0, r.y );
            const uint32_t cw = r.width ? r.width : w.w, ch = r.height ? r.height : w.h;
            lose( w, x, y, cw, ch );
            if ( r.kind == 2 )
                expose( c, r.w, w, x, y, std::min( cw, w.w ), std::min( ch, w.h ) );
            break;
        }
        case 3:
            if ( !w.mapped ) {
                w.mapped = true;
                lose( w, 0, 0, w.w, w.h );
                expose( c, r.w, w, 0, 0, w.w, w.h );
            }
            break;
        case 4:
            if ( r.width != w.w || r.height != w.h ) {
                w.w = r.width;
                w.h = r.height;
                w.px.assign( size_t( w.w ) * w.h, w.back );
                expose( c, r.w, w, 0, 0, w.w, w.h );
            }
            break;
        case 5:
            w.close = r.value != 0;
            break;
        case 6:
            w.mask = r.value;
            break;
        case 7:
            w.title = r.text;
            break;
        case 8:
            w.alive = false;
            break;
        case 9:
            w.back = uint32_t( r.value ) & 0xFFFFFFu;
            break;
        }
    }

    void flush( Connection & c )
    {
        while ( !c.out.empty() ) {
            Request r = c.out.front();
            c.out.pop_front();
            execute( c, r );
        }
    }

    void send( Connection & c, const Request & r )
    {
        c.out.push_back( r );
        if ( sim_draw( ST_MISC, 8 ) == 7 ) { // the buffer of requests is full
            sim_count( "probe.early-flush", 1 );
            flush( c );
        }
    }

    // at a moment when neither the client nor the server has anything to do
    void check( Connection & c, const char * when )
    {
        if ( !c.want || c.want->window == 0 )
            return;
        const Expected & e = *c.want;
        std::map<Window, Win>::iterator wi = c.win.find( e.window );
        if ( wi == c.win.end() || !wi->second.mapped )
            return;
        const Win & w = wi->second;
        if ( w.title != e.title )
            sim_fail( "wrong-title", "%s: the title of a window is '%s' instead of '%s'", when, w.title.c_str(), e.title.c_str() );
        auto image = [&]( uint32_t iw, uint32_t ih, const std::vector<uint32_t> & px, uint32_t x, uint32_t y, uint32_t & v ) {
            if ( x >= iw || y >= ih )
                return false;
            v = px[y * iw + x];
            return true;
        };
        for ( uint32_t y = 0; y < w.h; ++y )
            for ( uint32_t x = 0; x < w.w; ++x ) {
                const uint32_t got = w.px[y * w.w + x];
                bool ok = false, exact = false;
                uint32_t v = 0;
                // the last point of which this is the centre decides, later neighbours could be painted over it
                for ( size_t i = e.points.size(); i-- > 0; ) {
                    const Point & p = e.points[i];
                    const int dx = p.x - int( x ), dy = p.y - int( y );
                    if ( dx == 0 && dy == 0 ) {
                        exact = true;
                        ok = ok || got == p.colour;
                        break;
                    }
                    if ( dx >= -1 && dx <= 1 && dy >= -1 && dy <= 1 )
                        ok = ok || got == p.colour;
                }
                if ( !exact ) {
                    if ( image( e.w, e.h, e.px, x, y, v ) )
                        ok = ok || got == v;
                    else
                        ok = true; // outside of the image: nothing is promised
                    if ( !e.known )
                        ok = ok || !image( e.w2, e.h2, e.px2, x, y, v ) || got == v;
                }
                if ( !ok )
                    sim_fail( "wrong-content", "%s: pixel %u, %u of a window %ux%u is %06x, the image has %06x%s", when, x, y, w.w, w.h, got,
                              image( e.w, e.h, e.px, x, y, v ) ? v : 0u, exact ? " and a point is drawn here" : "" );
            }
        sim_count( "probe.content-checked", 1 );
    }

    // the user or the server does something
    void world( Connection & c )
    {
        std::vector<Window> live;
        for ( std::map<Window, Win>::iterator i = c.win.begin(); i != c.win.end(); ++i )
            if ( i->second.alive && i->second.mapped )
                live.push_back( i->first );
        if ( live.empty() )
            sim_fail( "no-progress", "the client waits for an event but it has no window on the screen" );
        const Window id = live[sim_draw( ST_MISC, uint32_t( live.size() ) )];
        Win & w = c.win[id];
        XEvent e;
        memset( &e, 0, sizeof e );
        const uint32_t what = c.budget == 0 ? 99 : sim_choose( 6 );
        if ( c.budget > 0 )
            --c.budget;
        switch ( what ) {
        case 0:
        case 1: { // a part of the window was covered by another one
            const int x = int( sim_draw( ST_MISC, w.w ) ), y = int( sim_draw( ST_MISC, w.h ) );
            const uint32_t cw = 1 + sim_draw( ST_MISC, w.w - uint32_t( x ) ), ch = 1 + sim_draw( ST_MISC, w.h - uint32_t( y ) );
            lose( w, x, y, cw, ch );
            expose( c, id, w, x, y, cw, ch );
            sim_count( "fault.content-lost", 1 );
            break;
        }
        case 2:
            if ( w.mask & KeyPressMask ) {
                e.type = KeyPress;
                e.xkey.display = reinterpret_cast<Display *>( &c.d );
                e.xkey.window = id;
                e.xkey.keycode = 8 + sim_draw( ST_MISC, 200 );
                c.in.push_back( e );
            }
            break;
        case 3: { // a message of another client
            e.type = ClientMessage;
            e.xclient.display = reinterpret_cast<Display *>( &c.d );
            e.xclient.window = id;
            e.xclient.format = 32;
            e.xclient.message_type = 77;
            e.xclient.data.l[0] = long( 900 + sim_draw( ST_MISC, 50 ) );
            c.in.push_back( e );
            sim_count( "fault.foreign-message", 1 );
            break;
        }
        case 4: { // the user resizes the window: its content is lost
            w.w = 1 + sim_draw( ST_MISC, 24 );
            w.h = 1 + sim_draw( ST_MISC, 24 );
            w.px.assign( size_t( w.w ) * w.h, w.back );
            expose( c, id, w, 0, 0, w.w, w.h );
            sim_count( "fault.window-resized", 1 );
            break;
        }
        case 5: { // minimised and restored
            lose( w, 0, 0, w.w, w.h );
            expose( c, id, w, 0, 0, w.w, w.h );
            sim_count( "fault.content-lost", 1 );
            break;
        }
        default:
            if ( c.closeSent && c.closeRead )
                sim_fail( "close-ignored", "the user has closed a window but the client waits for further events" );
            if ( !w.close )
                xerror( "a lost connection (the window is killed because it does not support WM_DELETE_WINDOW)", "closing a window" );
            e.type = ClientMessage;
            e.xclient.display = reinterpret_cast<Display *>( &c.d );
            e.xclient.window = id;
            e.xclient.format = 32;
            e.xclient.message_type = c.atom.count( "WM_PROTOCOLS" ) ? c.atom["WM_PROTOCOLS"] : 78;
            e.xclient.data.l[0] = long( c.atom["WM_DELETE_WINDOW"] );
            c.in.push_back( e );
            c.closeSent = true;
        }
    }

    XImage * makeImage( Connection & c, int depth, uint32_t width, uint32_t height, char * data, int pad, int lineBytes );

    int destroyImage( XImage * i )
    {
        SimRt rt;
        std::map<XImage *, Connection *>::iterator it = g_images->find( i );
        if ( it == g_images->end() )
            sim_fail( "x-double-free", "an image which does not exist is destroyed" );
        if ( i->data ) // would be released with free()
            sim_fail( "x-foreign-free", "XDestroyImage releases pixels which are owned by somebody else" );
        --it->second->images;
        g_images->erase( it );
        delete i;
        return 1;
    }

    unsigned long getPixel( XImage * i, int x, int y )
    {
        uint32_t v;
        memcpy( &v, i->data + y * i->bytes_per_line + x * 4, 4 );
        return v;
    }

    int putPixel( XImage * i, int x, int y, unsigned long p )
    {
        const uint32_t v = uint32_t( p );
        memcpy( i->data + y * i->bytes_per_line + x * 4, &v, 4 );
        return 1;
    }

    XImage * makeImage( Connection & c, int depth, uint32_t width, uint32_t height, char * data, int pad, int lineBytes )
    {
        XImage * i = new XImage();
        memset( i, 0, sizeof *i );
        i->width = int( width );
        i->height = int( height );
        i->format = ZPixmap;
        i->data = data;
        i->byte_order = LSBFirst;
        i->bitmap_unit = 32;
        i->bitmap_pad = pad;
        i->depth = depth;
        i->bits_per_pixel = 32;
        i->bytes_per_line = lineBytes ? lineBytes : int( width * 4 );
        i->f.destroy_image = destroyImage;
        i->f.get_pixel = getPixel;
        i->f.put_pixel = putPixel;
        ++c.images;
        ( *g_images )[i] = &c;
        return i;
    }

    Request request( int kind, Window w )
    {
        Request r;
        r.kind = kind;
        r.w = w;
        return r;
    }

    void entered( const char * name )
    {
        sim_sync_point( name, nullptr );
    }
}

extern "C" {
Display * XOpenDisplay( const char * )
{
    entered( "XOpenDisplay" );
    SimRt rt;
    if ( g_refuseOpen && --g_refuseOpen == 0 ) {
        g_refused = true;
        sim_count( "fault.no-display", 1 );
        return nullptr;
    }
    Connection * c = new Connection();
    memset( &c->d, 0, sizeof c->d );
    memset( &c->screen, 0, sizeof c->screen );
    memset( &c->visual, 0, sizeof c->visual );
    c->d.screens = &c->screen;
    c->d.nscreens = 1;
    c->d.default_screen = 0;
    c->d.byte_order = LSBFirst;
    c->screen.display = reinterpret_cast<Display *>( &c->d );
    c->screen.root = 1;
    c->screen.width = 1000;
    c->screen.height = 1000;
    c->screen.root_depth = 24;
    c->screen.root_visual = &c->visual;
    c->screen.default_gc = reinterpret_cast<GC>( &c->gcTag );
    c->screen.white_pixel = 0xFFFFFFu;
    c->screen.black_pixel = 0;
    c->visual.red_mask = 0xFF0000u;
    c->visual.green_mask = 0xFF00u;
    c->visual.blue_mask = 0xFFu;
    g_all->push_back( c );
    return reinterpret_cast<Display *>( &c->d );
}

int XCloseDisplay( Display * d )
{
    entered( "XCloseDisplay" );
    SimRt rt;
    Connection & c = of( d );
    flush( c );
    c.closed = true;
    c.win.clear();
    return 0;
}

Window XCreateSimpleWindow( Display * d, Window parent, int, int, unsigned int w, unsigned int h, unsigned int, unsigned long, unsigned long background )
{
    entered( "XCreateSimpleWindow" );
    SimRt rt;
    Connection & c = of( d );
    if ( parent != c.screen.root )
        xerror( "BadWindow", "XCreateSimpleWindow" );
    if ( w == 0 || h == 0 || w > 65535 || h > 65535 )
        xerror( "BadValue", "XCreateSimpleWindow" );
    Win n;
    n.w = w;
    n.h = h;
    n.back = uint32_t( background ) & 0xFFFFFFu;
    n.px.assign( size_t( w ) * h, n.back );
    const Window id = c.next++;
    c.win[id] = n;
    return id;
}

int XDestroyWindow( Display * d, Window w )
{
    entered( "XDestroyWindow" );
    SimRt rt;
    Connection & c = of( d );
    window( c, w, "XDestroyWindow" );
    send( c, request( 8, w ) );
    return 1;
}

int XSelectInput( Display * d, Window w, long mask )
{
    SimRt rt;
    Connection & c = of( d );
    Request r = request( 6, w );
    r.value = mask;
    send( c, r );
    return 1;
}

int XMapWindow( Display * d, Window w )
{
    SimRt rt;
    send( of( d ), request( 3, w ) );
    return 1;
}

int XMapRaised( Display * d, Window w )
{
    return XMapWindow( d, w );
}

int XStoreName( Display * d, Window w, const char * name )
{
    SimRt rt;
    sim_read( name, strlen( name ) + 1 );
    Request r = request( 7, w );
    r.text = name;
    send( of( d ), r );
    return 1;
}

Atom XInternAtom( Display * d, const char * name, Bool )
{
    entered( "XInternAtom" );
    SimRt rt;
    Connection & c = of( d );
    flush( c ); // a round trip
    std::map<std::string, Atom>::iterator i = c.atom.find( name );
    if ( i == c.atom.end() )
        i = c.atom.insert( std::make_pair( std::string( name ), Atom( 300 + c.atom.size() ) ) ).first;
    return i->second;
}

Status XSetWMProtocols( Display * d, Window w, Atom * a, int n )
{
    SimRt rt;
    Connection & c = of( d );
    Request r = request( 5, w );
    for ( int i = 0; i < n; ++i )
        if ( c.atom.count( "WM_DELETE_WINDOW" ) && a[i] == c.atom["WM_DELETE_WINDOW"] )
            r.value = 1;
    send( c, r );
    return 1;
}

XImage * XCreateImage( Display * d, Visual * v, unsigned int depth, int format, int offset, char * data, unsigned int w, unsigned int h, int pad, int lineBytes )
{
    entered( "XCreateImage" );
    SimRt rt;
    Connection & c = of( d );
    if ( g_refuseImage && --g_refuseImage == 0 ) {
        g_refused = true;
        sim_count( "fault.no-image", 1 );
        return nullptr;
    }
    if ( v != &c.visual || depth != 24 || format != ZPixmap || offset != 0 || ( pad != 8 && pad != 16 && pad != 32 ) || lineBytes < 0
         || ( lineBytes != 0 && lineBytes < int( w * 4 ) ) )
        return nullptr;
    return makeImage( c, int( depth ), w, h, data, pad, lineBytes );
}

Status XInitImage( XImage * )
{
    return 1;
}

int XPutImage( Display * d, Drawable w, GC, XImage * image, int sx, int sy, int dx, int dy, unsigned int width, unsigned int height )
{
    entered( "XPutImage" );
    if ( image == nullptr )
        sim_fail( "invalid-access", "XPutImage without an image" );
    Request r = request( 0, w );
    const char * data;
    int line, iw, ih;
    {
        SimRt rt;
        Connection & c = of( d );
        if ( !g_images->count( image ) )
            sim_fail( "x-use-after-free", "a destroyed image is shown" );
        if ( image->depth != 24 )
            xerror( "BadMatch", "XPutImage" );
        data = image->data;
        line = image->bytes_per_line;
        iw = image->width;
        ih = image->height;
        (void)c;
    }
    // Xlib clips the area by the image
    if ( sx < 0 || sy < 0 || sx >= iw || sy >= ih )
        return 0;
    width = std::min( width, unsigned( iw - sx ) );
    height = std::min( height, unsigned( ih - sy ) );
    for ( unsigned y = 0; y < height; ++y )
        sim_read( data + ( sy + int( y ) ) * line + sx * 4, width * 4 );
    SimRt rt;
    r.x = dx;
    r.y = dy;
    r.width = width;
    r.height = height;
    r.data.resize( size_t( width ) * height );
    for ( unsigned y = 0; y < height; ++y )
        for ( unsigned x = 0; x < width; ++x ) {
            uint32_t v;
            memcpy( &v, data + ( sy + int( y ) ) * line + ( sx + int( x ) ) * 4, 4 );
            r.data[y * width + x] = v & 0xFFFFFFu;
        }
    send( of( d ), r );
    return 0;
}

int XSetForeground( Display * d, GC, unsigned long v )
{
    SimRt rt;
    of( d ).foreground = uint32_t( v ) & 0xFFFFFFu;
    return 1;
}

static void pixels( Display * d, Window w, const std::vector<std::pair<int, int>> & p )
{
    Connection & c = of( d );
    Request r = request( 1, w );
    r.value = long( c.foreground );
    r.points = p;
    send( c, r );
}

int XDrawLine( Display * d, Drawable w, GC, int x1, int y1, int x2, int y2 )
{
    SimRt rt;
    std::vector<std::pair<int, int>> p;
    const int n = std::max( std::abs( x2 - x1 ), std::abs( y2 - y1 ) );
    if ( n > 100000 )
        xerror( "a line which does not fit into 16 bits", "XDrawLine" );
    for ( int i = 0; i <= n; ++i )
        p.push_back( std::make_pair( n ? x1 + ( x2 - x1 ) * i / n : x1, n ? y1 + ( y2 - y1 ) * i / n : y1 ) );
    pixels( d, w, p );
    return 1;
}

int XDrawPoint( Display * d, Drawable w, GC, int x, int y )
{
    SimRt rt;
    pixels( d, w, { std::make_pair( x, y ) } );
    return 1;
}

int XFillRectangle( Display * d, Drawable w, GC, int x, int y, unsigned int width, unsigned int height )
{
    SimRt rt;
    std::vector<std::pair<int, int>> p;
    for ( unsigned j = 0; j < height; ++j )
        for ( unsigned i = 0; i < width; ++i )
            p.push_back( std::make_pair( x + int( i ), y + int( j ) ) );
    pixels( d, w, p );
    return 1;
}

int XClearArea( Display * d, Window w, int x, int y, unsigned int width, unsigned int height, Bool exposures )
{
    SimRt rt;
    Request r = request( exposures ? 2 : 10, w );
    r.x = x;
    r.y = y;
    r.width = width;
    r.height = height;
    send( of( d ), r );
    return 1;
}

int XClearWindow( Display * d, Window w )
{
    return XClearArea( d, w, 0, 0, 0, 0, False );
}

int XResizeWindow( Display * d, Window w, unsigned int width, unsigned int height )
{
    SimRt rt;
    if ( width == 0 || height == 0 || width > 65535 || height > 65535 )
        xerror( "BadValue", "XResizeWindow" );
    Request r = request( 4, w );
    r.width = width;
    r.height = height;
    send( of( d ), r );
    return 1;
}

int XFlush( Display * d )
{
    entered( "XFlush" );
    SimRt rt;
    flush( of( d ) );
    return 1;
}

int XSync( Display * d, Bool discard )
{
    entered( "XSync" );
    SimRt rt;
    Connection & c = of( d );
    flush( c );
    if ( discard )
        c.in.clear();
    return 1;
}

int XPending( Display * d )
{
    entered( "XPending" );
    SimRt rt;
    Connection & c = of( d );
    if ( c.in.empty() )
        flush( c );
    return int( c.in.size() );
}

int XFree( void * )
{
    return 1;
}

int XNextEvent( Display * d, XEvent * e )
{
    entered( "XNextEvent" );
    SimRt rt;
    Connection & c = of( d );
    if ( c.in.empty() )
        flush( c );
    for ( uint32_t n = 0; c.in.empty(); ++n ) {
        check( c, "waiting for an event" );
        if ( n > 1000 )
            sim_fail( "no-progress", "the client waits for events which it has not selected" );
        world( c );
    }
    *e = c.in.front();
    c.in.pop_front();
    if ( e->type == ClientMessage && c.closeSent && c.atom.count( "WM_DELETE_WINDOW" ) && e->xclient.data.l[0] == long( c.atom["WM_DELETE_WINDOW"] ) )
        c.closeRead = true;
    return 0;
}
}

namespace
{
    uint32_t shade( uint64_t & s )
    {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        return uint32_t( s >> 40 ) & 0xFFFFFFu;
    }

    // an image together with the pixels which have to be seen
    penguinV::Image makePicture( uint32_t w, uint32_t h, uint8_t colours, uint8_t alignment, uint64_t seed, std::vector<uint32_t> & px )
    {
        penguinV::Image i( w, h, colours, alignment );
        SimRt rt;
        px.assign( size_t( w ) * h, 0 );
        for ( uint32_t y = 0; y < h; ++y )
            for ( uint32_t x = 0; x < i.rowSize(); ++x ) {
                const uint8_t v = uint8_t( shade( seed ) );
                i.data()[size_t( y ) * i.rowSize() + x] = v;
                if ( x < w * colours ) {
                    if ( colours == 1 )
                        px[y * w + x] = v * 0x010101u;
                    else if ( colours == 3 )
                        px[y * w + x / 3] |= uint32_t( v ) << ( 8 * ( x % 3 ) );
                }
            }
        return i;
    }

    struct Plan
    {
        uint32_t w, h;
        uint8_t colours, alignment;
        uint64_t seed;
    };

    Plan plan( bool allowBad )
    {
        Plan p;
        static const uint32_t side[] = { 1, 2, 3, 5, 8, 13, 20 };
        p.w = side[sim_choose( 7 )];
        p.h = side[sim_choose( 7 )];
        p.colours = sim_choose( 2 ) ? 3 : 1;
        p.alignment = uint8_t( 1u << sim_choose( 4 ) );
        p.seed = sim_choose( 1000 );
        if ( allowBad && sim_choose( 8 ) == 7 ) {
            if ( sim_choose( 2 ) )
                p.colours = uint8_t( sim_choose( 2 ) ? 4 : 2 );
            else
                p.w = p.h = 0;
        }
        return p;
    }

    Connection * newest( size_t from )
    {
        return g_all->size() > from ? g_all->back() : nullptr;
    }

    void session( bool faults )
    {
        Plan first = plan( true );
        std::vector<uint32_t> px;
        penguinV::Image image = makePicture( first.w, first.h, first.colours, first.alignment, first.seed, px );
        Expected want;
        const uint32_t points = sim_choose( 3 );
        static const char * titles[] = { "", "a", "penguin", "a title which is a bit longer than others" };
        want.title = titles[sim_choose( 4 )];
        std::string title = want.title;
        UiWindowX11 * ui = nullptr;
        Connection * c = nullptr;
        bool thrown = false;
        {
            SimSut sut;
            // the other thread could open its connection meanwhile so find the one of this window through its thread
            try {
                ui = new UiWindowX11( image, title );
            }
            catch ( ... ) {
                thrown = true;
            }
        }
        const bool bad = first.colours == 2 || first.colours == 4;
        if ( thrown ) {
            if ( !bad && !g_refused && sim_alloc_failed() == 0 )
                sim_fail( "unexpected-exception", "a window for an image %ux%ux%u cannot be created", first.w, first.h, first.colours );
            sim_count( "probe.failed-call", 1 );
            return;
        }
        if ( bad )
            sim_fail( "wrong-content", "a window is created for an image of %u colours which cannot be shown", first.colours );
        c = newest( 0 );
        {
            SimRt rt;
            want.w = first.w;
            want.h = first.h;
            want.px = px;
            want.window = c->win.empty() ? 0 : c->win.begin()->first;
            c->want = &want;
        }
        const uint32_t shows = 1 + sim_choose( 2 );
        for ( uint32_t s = 0; s < shows; ++s ) {
            for ( uint32_t i = 0; i < points; ++i ) {
                Point p;
                p.x = int( sim_choose( 26 ) ) - 2;
                p.y = int( sim_choose( 26 ) ) - 2;
                const uint8_t r = uint8_t( sim_choose( 256 ) ), g = uint8_t( sim_choose( 256 ) ), b = uint8_t( sim_choose( 256 ) );
                p.colour = uint32_t( r ) << 16 | uint32_t( g ) << 8 | b;
                bool failed = false;
                {
                    SimSut sut;
                    try {
                        ui->drawPoint( Point2d( p.x, p.y ), PaintColor( r, g, b, uint8_t( sim_choose( 256 ) ) ) );
                    }
                    catch ( ... ) {
                        failed = true;
                    }
                }
                if ( failed && sim_alloc_failed() == 0 )
                    sim_fail( "unexpected-exception", "a point cannot be drawn" );
                if ( !failed ) {
                    SimRt rt;
                    want.points.push_back( p );
                }
            }
            {
                SimRt rt;
                c->budget = sim_choose( 8 );
                c->closeSent = c->closeRead = false;
            }
            const bool replace = s > 0 && sim_choose( 3 ) > 0;
            bool failed = false;
            if ( replace ) {
                Plan p = plan( true );
                std::vector<uint32_t> px2;
                penguinV::Image other = makePicture( p.w, p.h, p.colours, p.alignment, p.seed, px2 );
                Expected old;
                {
                    SimRt rt;
                    old = want;
                    want.w = p.w;
                    want.h = p.h;
                    want.px = px2;
                    if ( p.colours == 2 || p.colours == 4 || faults ) { // either of them until the outcome is known
                        want.known = false;
                        want.w2 = old.w;
                        want.h2 = old.h;
                        want.px2 = old.px;
                    }
                }
                {
                    SimSut sut;
                    try {
                        ui->setImage( other );
                    }
                    catch ( ... ) {
                        failed = true;
                    }
                }
                const bool bad2 = p.colours == 2 || p.colours == 4;
                if ( failed && !bad2 && !g_refused && sim_alloc_failed() == 0 )
                    sim_fail( "unexpected-exception", "an image %ux%ux%u cannot be set", p.w, p.h, p.colours );
                if ( !failed && bad2 )
                    sim_fail( "wrong-content", "an image of %u colours which cannot be shown is accepted", p.colours );
                SimRt rt;
                if ( failed ) {
                    sim_count( "probe.failed-call", 1 );
                    want.w = old.w;
                    want.h = old.h;
                    want.px = old.px;
                }
                if ( !failed || bad2 )
                    want.known = true;
                sim_count( "probe.image-replaced", 1 );
            }
            else {
                SimSut sut;
                try {
                    ui->show();
                }
                catch ( ... ) {
                    failed = true;
                }
                if ( failed && sim_alloc_failed() == 0 && !g_refused )
                    sim_fail( "unexpected-exception", "a window cannot be shown" );
            }
            if ( !failed ) {
                SimRt rt;
                if ( !c->closeRead )
                    sim_fail( "early-return", "a call which shows a window has returned but the window is not closed by the user" );
            }
        }
        {
            SimRt rt;
            c->want = nullptr;
        }
        SimSut sut;
        delete ui;
    }

    void begin()
    {
        SimRt rt;
        g_all = new std::vector<Connection *>();
        g_images = new std::map<XImage *, Connection *>();
        g_refuseOpen = g_refuseImage = 0;
        g_refused = false;
    }

    void finish( uint64_t serial )
    {
        SimRt rt;
        char b[400];
        for ( Connection * c : *g_all ) {
            if ( !c->closed )
                sim_fail( "leak", "a connection to the display is not closed" );
            if ( c->images != 0 )
                sim_fail( "leak", "%d images of the display are not released", c->images );
        }
        if ( sim_live_blocks( serial, b, sizeof b ) != 0 )
            sim_fail( "leak", "windows leak:%s", b );
    }

    void ui_x11()
    {
        begin();
        const uint64_t serial = sim_alloc_serial();
        const uint32_t kind = sim_choose( 4 );
        const uint32_t count = 1 + sim_choose( 2 );
        for ( uint32_t i = 0; i < count; ++i ) {
            bool faults = false;
            if ( kind == 1 ) {
                SimRt rt;
                faults = true;
                if ( sim_choose( 3 ) == 0 )
                    g_refuseOpen = 1;
                else
                    g_refuseImage = 1 + sim_choose( 3 );
            }
            else if ( kind == 2 ) {
                faults = true;
                sim_alloc_fail_at( 1 + sim_choose( 12 ) );
            }
            session( faults );
            SimRt rt;
            g_refuseOpen = g_refuseImage = 0;
            g_refused = false;
            sim_alloc_fail_at( 0 );
        }
        finish( serial );
        sim_exit_normally();
    }

    SimScenario s1( "ui_x11", ui_x11 );
}
