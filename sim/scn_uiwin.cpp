// C32: Windows windows on a simulated desktop (SimWin). A window repaints only when it is told to, contents are lost at any moment, a user types,
// resizes, minimises and closes windows between any two messages, and the system refuses classes, windows, pens and memory.
#include "rt.h"
#include "ui/win/win_ui.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace
{
    const uint32_t BACKGROUND = 0xABCDEFu, LOST = 0x123457u;
    const int FRAMEX = 16, FRAMEY = 39;

    struct Figure
    {
        int kind; // 0 point, 1 line, 2 ellipse
        double a, b, c, d; // in pixels of the image; ellipse: centre and radii
        uint32_t colour;
    };

    struct Picture
    {
        uint32_t w = 0, h = 0;
        std::vector<uint32_t> px;
    };

    // what a window has to show
    struct Expected
    {
        Picture now, before;
        bool known = true; // false: a call has failed or is in progress so this or the previous image is shown
        std::vector<Figure> figures;
        std::vector<Figure> maybe; // a figure of a call which is in progress
        std::string title;
    };

    struct Win
    {
        bool alive = false, visible = false, dirty = false, erase = false, tainted = false, closeSent = false, closeRead = false;
        int tid = 0;
        WNDPROC proc = nullptr;
        UINT style = 0;
        LONG_PTR user = 0;
        int x = 0, y = 0, cw = 1, ch = 1, minw = 1, minh = 1;
        RECT update = { 0, 0, 0, 0 };
        std::vector<uint32_t> px;
        std::string title;
        Expected * want = nullptr;
        uint32_t repeated = 0;
        HDC paint = nullptr;
    };

    struct Pen
    {
        uint32_t colour = 0;
        bool live = true, stock = false;
        HDC in = nullptr;
    };

    struct Dc
    {
        HWND w = nullptr;
        HGDIOBJ pen = nullptr;
        POINT at = { 0, 0 };
        RECT clip = { 0, 0, 0, 0 };
        int stretch = BLACKONWHITE;
    };

    struct Queue
    {
        std::deque<MSG> posted;
        bool quit = false;
        uint32_t budget = 0; // actions of a user before he closes a window
    };

    struct Desktop
    {
        std::map<HWND, Win> win;
        std::map<HDC, Dc> dc;
        std::map<HGDIOBJ, Pen> pen;
        std::map<int, Queue> queue;
        std::map<std::string, WNDCLASSEX> classes;
        std::vector<std::string> names; // of classes
        uintptr_t next = 0x1000;
        int screen[2] = { 1000, 1000 }, minimum = 1;
        uint32_t refuseClass = 0, refuseWindow = 0, refusePens = 0;
        bool refused = false;
        HGDIOBJ black = nullptr;
    };
    Desktop * g = nullptr;

    void entered( const char * name )
    {
        sim_sync_point( name, nullptr );
    }

    template <typename T>
    T handle()
    {
        g->next += 16;
        return reinterpret_cast<T>( g->next );
    }

    Win * find( HWND w )
    {
        std::map<HWND, Win>::iterator i = g->win.find( w );
        return i == g->win.end() || !i->second.alive ? nullptr : &i->second;
    }

    void invalid( Win & w, int l, int t, int r, int b )
    {
        l = std::max( l, 0 );
        t = std::max( t, 0 );
        r = std::min( r, w.cw );
        b = std::min( b, w.ch );
        if ( l >= r || t >= b )
            return;
        if ( w.dirty ) {
            w.update.left = std::min( w.update.left, LONG( l ) );
            w.update.top = std::min( w.update.top, LONG( t ) );
            w.update.right = std::max( w.update.right, LONG( r ) );
            w.update.bottom = std::max( w.update.bottom, LONG( b ) );
        }
        else
            w.update = { l, t, r, b };
        w.dirty = true;
    }

    void lose( Win & w, int l, int t, int r, int b )
    {
        for ( int y = std::max( t, 0 ); y < std::min( b, w.ch ); ++y )
            for ( int x = std::max( l, 0 ); x < std::min( r, w.cw ); ++x )
                w.px[size_t( y ) * size_t( w.cw ) + size_t( x )] = LOST;
        invalid( w, l, t, r, b );
        w.erase = true;
    }

    // returns whether the size has changed
    bool resize( Win & w, int cw, int ch )
    {
        cw = std::max( cw, w.minw );
        ch = std::max( ch, w.minh );
        if ( cw == w.cw && ch == w.ch )
            return false;
        std::vector<uint32_t> px( size_t( cw ) * size_t( ch ), LOST );
        for ( int y = 0; y < std::min( ch, w.ch ); ++y )
            for ( int x = 0; x < std::min( cw, w.cw ); ++x )
                px[size_t( y * cw + x )] = w.px[size_t( y * w.cw + x )];
        w.px.swap( px );
        const int ow = w.cw, oh = w.ch;
        w.cw = cw;
        w.ch = ch;
        if ( w.dirty ) {
            w.update.right = std::min( w.update.right, LONG( cw ) );
            w.update.bottom = std::min( w.update.bottom, LONG( ch ) );
            w.dirty = w.update.left < w.update.right && w.update.top < w.update.bottom;
        }
        if ( w.visible ) {
            if ( ( cw != ow && ( w.style & CS_HREDRAW ) ) || ( ch != oh && ( w.style & CS_VREDRAW ) ) )
                invalid( w, 0, 0, cw, ch );
            else {
                invalid( w, ow, 0, cw, ch );
                invalid( w, 0, oh, cw, ch );
            }
            w.erase = true;
        }
        return true;
    }

    LRESULT call( HWND id, UINT msg, WPARAM wp, LPARAM lp )
    {
        WNDPROC p = nullptr;
        {
            SimRt rt;
            Win * w = find( id );
            if ( w ) {
                p = w->proc;
                if ( msg == WM_CLOSE )
                    w->closeRead = true;
            }
        }
        return p ? p( id, msg, wp, lp ) : 0;
    }

    LPARAM size( const Win & w )
    {
        return LPARAM( w.cw ) | LPARAM( w.ch ) << 16;
    }

    // --- what has to be seen
    void shownSize( const Picture & p, uint32_t & w, uint32_t & h )
    {
        w = p.w;
        h = p.h;
        const uint32_t lx = uint32_t( g->screen[0] * 95 / 100 ), ly = uint32_t( g->screen[1] * 95 / 100 );
        if ( w > lx || h > ly ) {
            const double s = std::min( double( lx ) / w, double( ly ) / h );
            w = std::max( 1u, uint32_t( s * p.w ) );
            h = std::max( 1u, uint32_t( s * p.h ) );
        }
    }

    bool pixelOf( const Picture & p, int cw, int ch, int x, int y, uint32_t got )
    {
        if ( p.w == 0 )
            return true; // nothing is promised
        uint32_t sw, sh;
        shownSize( p, sw, sh );
        if ( int( p.w ) == cw && int( p.h ) == ch && sw == p.w && sh == p.h )
            return p.px[size_t( y ) * p.w + size_t( x )] == got;
        const double fx = double( p.w ) / cw, fy = double( p.h ) / ch;
        // any pixel of a block which is replaced by one pixel of a reduced image is fine
        const double bx = double( p.w ) / sw, by = double( p.h ) / sh, ax = bx > 1 ? bx : 0, ay = by > 1 ? by : 0;
        const int x0 = int( std::floor( x * fx - bx - 1e-9 ) ), x1 = int( std::ceil( ( x + 1 ) * fx + ax + 1e-9 ) );
        const int y0 = int( std::floor( y * fy - by - 1e-9 ) ), y1 = int( std::ceil( ( y + 1 ) * fy + ay + 1e-9 ) );
        for ( int j = std::max( y0, 0 ); j <= std::min( y1, int( p.h ) - 1 ); ++j )
            for ( int i = std::max( x0, 0 ); i <= std::min( x1, int( p.w ) - 1 ); ++i )
                if ( p.px[size_t( j ) * p.w + size_t( i )] == got )
                    return true;
        return false;
    }

    typedef std::vector<std::pair<double, double>> Path;
    Path path( const Figure & f, double fx, double fy )
    {
        Path r;
        if ( f.kind == 0 )
            r.push_back( std::make_pair( f.a * fx, f.b * fy ) );
        else if ( f.kind == 1 ) {
            const double n = 2 + std::ceil( 2 * std::max( std::fabs( f.c - f.a ) * fx, std::fabs( f.d - f.b ) * fy ) );
            for ( double i = 0; i <= n; ++i )
                r.push_back( std::make_pair( ( f.a + ( f.c - f.a ) * i / n ) * fx, ( f.b + ( f.d - f.b ) * i / n ) * fy ) );
        }
        else {
            const double n = 8 + std::ceil( 8 * ( f.c * fx + f.d * fy ) );
            for ( double i = 0; i < n; ++i )
                r.push_back( std::make_pair( ( f.a + f.c * std::cos( i / n * 6.283185307179586 ) ) * fx, ( f.b + f.d * std::sin( i / n * 6.283185307179586 ) ) * fy ) );
        }
        return r;
    }

    void checkWindow( const Win & w, const char * when )
    {
        if ( !w.want || !w.visible )
            return;
        const Expected & e = *w.want;
        if ( w.title != e.title )
            sim_fail( "wrong-title", "%s: the title of a window is '%s' instead of '%s'", when, w.title.c_str(), e.title.c_str() );
        if ( w.tainted || e.now.w == 0 || ( !e.known && e.before.w == 0 ) )
            return;
        const bool two = !e.known && ( e.before.w != e.now.w || e.before.h != e.now.h );
        std::vector<Figure> all = e.figures;
        all.insert( all.end(), e.maybe.begin(), e.maybe.end() );
        // where figures could be
        std::vector<std::vector<bool>> zone( all.size(), std::vector<bool>( w.px.size(), two ) );
        uint32_t sw, sh;
        shownSize( e.now, sw, sh );
        const double fx = double( w.cw ) / e.now.w, fy = double( w.ch ) / e.now.h;
        const double near = 1.1;
        std::vector<Path> paths;
        for ( size_t i = 0; i < all.size(); ++i ) {
            paths.push_back( path( all[i], fx, fy ) );
            const double reach = near + 1.5 + ( all[i].kind == 0 ? std::max( 1.0, std::min( fx, fy ) / 2 ) : 0 );
            for ( const std::pair<double, double> & p : paths.back() )
                for ( int y = std::max( 0, int( p.second - reach ) ); y <= std::min( w.ch - 1, int( p.second + reach ) ); ++y )
                    for ( int x = std::max( 0, int( p.first - reach ) ); x <= std::min( w.cw - 1, int( p.first + reach ) ); ++x )
                        zone[i][size_t( y * w.cw + x )] = true;
        }
        for ( int y = 0; y < w.ch; ++y )
            for ( int x = 0; x < w.cw; ++x ) {
                const size_t at = size_t( y * w.cw + x );
                const uint32_t got = w.px[at];
                bool ok = pixelOf( e.now, w.cw, w.ch, x, y, got ) || ( !e.known && pixelOf( e.before, w.cw, w.ch, x, y, got ) );
                for ( size_t i = 0; i < all.size(); ++i )
                    ok = ok || ( zone[i][at] && got == all[i].colour );
                if ( !ok )
                    sim_fail( "wrong-content", "%s: pixel %d, %d of a window %dx%d with an image %ux%u is %06x which is neither in the image nor in a figure", when, x, y, w.cw,
                              w.ch, e.now.w, e.now.h, got );
            }
        if ( !two )
            for ( size_t i = 0; i < e.figures.size(); ++i ) {
                const Figure & f = e.figures[i];
                if ( f.kind == 2 && ( f.c * fx < 2 || f.d * fy < 2 ) )
                    continue;
                const std::pair<double, double> first = paths[i].front(), last = paths[i].back();
                for ( const std::pair<double, double> & p : paths[i] ) {
                    const double edge = f.kind == 2 ? near + 1 : 0;
                    if ( p.first < edge || p.second < edge || p.first >= w.cw - 1 - edge || p.second >= w.ch - 1 - edge )
                        continue;
                    if ( f.kind == 1
                         && ( std::max( std::fabs( p.first - last.first ), std::fabs( p.second - last.second ) ) < near + 1
                              || std::max( std::fabs( p.first - first.first ), std::fabs( p.second - first.second ) ) < near + 1 ) )
                        continue;
                    const double reach = f.kind == 2 ? near + 1 : near;
                    bool seen = false;
                    for ( int y = std::max( 0, int( p.second - reach ) ); y <= std::min( w.ch - 1, int( p.second + reach ) ); ++y )
                        for ( int x = std::max( 0, int( p.first - reach ) ); x <= std::min( w.cw - 1, int( p.first + reach ) ); ++x )
                            for ( size_t k = 0; k < all.size(); ++k )
                                seen = seen || ( w.px[size_t( y * w.cw + x )] == all[k].colour && ( k == i || zone[k][size_t( y * w.cw + x )] ) );
                    if ( !seen )
                        sim_fail( "missing-figure", "%s: a %s is not seen at %.1f, %.1f of a window %dx%d with an image %ux%u", when,
                                  f.kind == 0 ? "point" : ( f.kind == 1 ? "line" : "ellipse" ), p.first, p.second, w.cw, w.ch, e.now.w, e.now.h );
                }
            }
        sim_count( "probe.content-checked", 1 );
    }

    // the user or the system does something; outside of a SimRt
    void world( int tid )
    {
        HWND id = nullptr;
        std::vector<std::pair<UINT, LPARAM>> sent;
        {
            SimRt rt;
            std::vector<HWND> seen;
            for ( std::map<HWND, Win>::iterator i = g->win.begin(); i != g->win.end(); ++i )
                if ( i->second.alive && i->second.visible && i->second.tid == tid )
                    seen.push_back( i->first );
            if ( seen.empty() )
                sim_fail( "no-progress", "a thread waits for messages forever: it has no window on the screen" );
            id = seen[sim_draw( ST_MISC, uint32_t( seen.size() ) )];
            Win & w = g->win[id];
            Queue & q = g->queue[tid];
            const uint32_t what = q.budget == 0 ? 99 : sim_choose( 6 );
            if ( q.budget > 0 )
                --q.budget;
            MSG m;
            memset( &m, 0, sizeof m );
            m.hwnd = id;
            switch ( what ) {
            case 0:
            case 1: {
                const int x = int( sim_draw( ST_MISC, uint32_t( w.cw ) ) ), y = int( sim_draw( ST_MISC, uint32_t( w.ch ) ) );
                lose( w, x, y, x + 1 + int( sim_draw( ST_MISC, uint32_t( w.cw ) ) ), y + 1 + int( sim_draw( ST_MISC, uint32_t( w.ch ) ) ) );
                sim_count( "fault.content-lost", 1 );
                break;
            }
            case 2: {
                static const UINT input[] = { WM_KEYDOWN, WM_KEYUP, WM_CHAR, WM_MOUSEMOVE, WM_LBUTTONDOWN, WM_SETCURSOR };
                m.message = input[sim_draw( ST_MISC, 6 )];
                m.wParam = sim_draw( ST_MISC, 200 );
                q.posted.push_back( m );
                break;
            }
            case 3: {
                static const UINT other[] = { WM_NULL, WM_TIMER, WM_USER + 5, WM_ACTIVATEAPP };
                m.message = other[sim_draw( ST_MISC, 4 )];
                if ( sim_draw( ST_MISC, 3 ) == 2 )
                    m.hwnd = nullptr; // for the thread
                q.posted.push_back( m );
                sim_count( "fault.foreign-message", 1 );
                break;
            }
            case 4:
                if ( resize( w, 1 + int( sim_draw( ST_MISC, 44 ) ), 1 + int( sim_draw( ST_MISC, 44 ) ) ) )
                    sent.push_back( std::make_pair( UINT( WM_SIZE ), size( w ) ) );
                sim_count( "fault.window-resized", 1 );
                break;
            case 5:
                sent.push_back( std::make_pair( UINT( WM_SIZE ), LPARAM( 0 ) ) );
                sent.push_back( std::make_pair( UINT( WM_SIZE ), size( w ) ) );
                lose( w, 0, 0, w.cw, w.ch );
                sim_count( "fault.content-lost", 1 );
                break;
            default:
                if ( w.closeSent && w.closeRead )
                    sim_fail( "close-ignored", "the user has closed a window but the program waits for further messages" );
                m.message = WM_SYSCOMMAND;
                m.wParam = SC_CLOSE;
                q.posted.push_back( m );
                w.closeSent = true;
            }
        }
        for ( const std::pair<UINT, LPARAM> & s : sent )
            call( id, s.first, 0, s.second );
    }

    void paintWindow( HWND id )
    {
        {
            SimRt rt;
            Win * w = find( id );
            if ( !w )
                return;
            if ( ++w->repeated > 50 )
                sim_fail( "no-progress", "a window is painted again and again because it does not validate its content" );
            if ( w->update.left == 0 && w->update.top == 0 && w->update.right == w->cw && w->update.bottom == w->ch )
                w->tainted = false;
        }
        call( id, WM_PAINT, 0, 0 );
    }

    void put( Dc & d, int x, int y, uint32_t colour )
    {
        Win * w = find( d.w );
        if ( w && x >= d.clip.left && y >= d.clip.top && x < d.clip.right && y < d.clip.bottom && x >= 0 && y >= 0 && x < w->cw && y < w->ch )
            w->px[size_t( y ) * size_t( w->cw ) + size_t( x )] = colour;
    }

    Dc & context( HDC h )
    {
        std::map<HDC, Dc>::iterator i = g->dc.find( h );
        if ( i == g->dc.end() )
            sim_fail( "gdi-error", "a device context which does not exist is used" );
        return i->second;
    }

    HDC makeContext( HWND id )
    {
        const HDC h = handle<HDC>();
        Dc d;
        d.w = id;
        d.pen = g->black;
        g->dc[h] = d;
        return h;
    }

    void dropContext( HDC h )
    {
        std::map<HDC, Dc>::iterator i = g->dc.find( h );
        if ( i == g->dc.end() )
            return;
        if ( g->pen.count( i->second.pen ) )
            g->pen[i->second.pen].in = nullptr;
        g->dc.erase( i );
    }
}

extern "C" {
ATOM RegisterClassEx( const WNDCLASSEX * c )
{
    entered( "RegisterClassEx" );
    SimRt rt;
    if ( g->refuseClass && --g->refuseClass == 0 ) {
        g->refused = true;
        sim_count( "fault.refused-class", 1 );
        return 0;
    }
    if ( c->cbSize != sizeof *c || !c->lpfnWndProc || !c->lpszClassName || c->lpszMenuName || g->classes.count( c->lpszClassName ) )
        return 0;
    g->classes[c->lpszClassName] = *c;
    return ATOM( 0xC000 + g->classes.size() );
}
BOOL UnregisterClass( LPCSTR name, HINSTANCE )
{
    SimRt rt;
    return g->classes.erase( name ) != 0;
}
HCURSOR LoadCursor( HINSTANCE, LPCSTR )
{
    return reinterpret_cast<HCURSOR>( 0x77 );
}
HMODULE GetModuleHandle( LPCSTR )
{
    return reinterpret_cast<HMODULE>( 0x400000 );
}
int GetSystemMetrics( int index )
{
    return index == SM_CXSCREEN || index == SM_CYSCREEN ? g->screen[index] : 0;
}
DWORD GetLastError()
{
    return 8;
}

HWND CreateWindowEx( DWORD, LPCSTR className, LPCSTR name, DWORD, int, int, int, int, HWND, HMENU, HINSTANCE instance, LPVOID param )
{
    entered( "CreateWindowEx" );
    HWND id;
    CREATESTRUCT c;
    memset( &c, 0, sizeof c );
    {
        SimRt rt;
        if ( g->refuseWindow && --g->refuseWindow == 0 ) {
            g->refused = true;
            sim_count( "fault.refused-window", 1 );
            return nullptr;
        }
        if ( !g->classes.count( className ) )
            return nullptr;
        id = handle<HWND>();
        Win w;
        w.alive = true;
        w.tid = sim_tid();
        w.proc = g->classes[className].lpfnWndProc;
        w.style = g->classes[className].style;
        w.title = name ? name : "";
        w.minw = w.minh = g->minimum;
        w.cw = w.minw + int( sim_draw( ST_MISC, 60 ) );
        w.ch = w.minh + int( sim_draw( ST_MISC, 60 ) );
        w.px.assign( size_t( w.cw ) * size_t( w.ch ), LOST );
        g->win[id] = w;
        c.lpCreateParams = param;
        c.hInstance = instance;
        c.lpszName = name;
        c.lpszClass = className;
        c.cx = w.cw + FRAMEX;
        c.cy = w.ch + FRAMEY;
    }
    call( id, WM_GETMINMAXINFO, 0, 0 );
    if ( call( id, WM_NCCREATE, 0, reinterpret_cast<LPARAM>( &c ) ) == 0 || call( id, WM_CREATE, 0, reinterpret_cast<LPARAM>( &c ) ) == -1 ) {
        DestroyWindow( id );
        return nullptr;
    }
    return id;
}

BOOL DestroyWindow( HWND id )
{
    entered( "DestroyWindow" );
    {
        SimRt rt;
        Win * w = find( id );
        if ( !w || w->tid != sim_tid() )
            return FALSE;
        w->visible = false;
    }
    call( id, WM_DESTROY, 0, 0 );
    call( id, WM_NCDESTROY, 0, 0 );
    SimRt rt;
    Win * w = find( id );
    if ( w ) {
        w->alive = false;
        std::deque<MSG> & q = g->queue[w->tid].posted;
        for ( size_t i = q.size(); i-- > 0; )
            if ( q[i].hwnd == id )
                q.erase( q.begin() + long( i ) );
    }
    return TRUE;
}
BOOL IsWindow( HWND id )
{
    SimRt rt;
    return find( id ) != nullptr;
}
BOOL IsWindowVisible( HWND id )
{
    SimRt rt;
    return find( id ) && find( id )->visible;
}

BOOL ShowWindow( HWND id, int how )
{
    entered( "ShowWindow" );
    bool was, now = how != SW_HIDE;
    LPARAM s;
    {
        SimRt rt;
        Win * w = find( id );
        if ( !w )
            return FALSE;
        was = w->visible;
        s = size( *w );
    }
    if ( was == now )
        return was;
    call( id, WM_SHOWWINDOW, now, 0 );
    {
        SimRt rt;
        Win * w = find( id );
        if ( !w )
            return FALSE;
        w->visible = now;
        w->dirty = false;
        if ( now ) {
            lose( *w, 0, 0, w->cw, w->ch );
            w->closeSent = w->closeRead = false;
        }
    }
    if ( now )
        call( id, WM_SIZE, 0, s );
    return was;
}

BOOL UpdateWindow( HWND id )
{
    entered( "UpdateWindow" );
    {
        SimRt rt;
        Win * w = find( id );
        if ( !w )
            return FALSE;
        if ( !w->visible || !w->dirty )
            return TRUE;
    }
    paintWindow( id );
    return TRUE;
}
BOOL InvalidateRect( HWND id, const RECT * r, BOOL erase )
{
    SimRt rt;
    Win * w = find( id );
    if ( !w )
        return FALSE;
    if ( !w->visible )
        return TRUE;
    if ( r )
        invalid( *w, r->left, r->top, r->right, r->bottom );
    else
        invalid( *w, 0, 0, w->cw, w->ch );
    w->erase = w->erase || erase;
    return TRUE;
}
BOOL RedrawWindow( HWND id, const RECT * r, HRGN, UINT flags )
{
    if ( flags & RDW_INVALIDATE )
        InvalidateRect( id, r, ( flags & RDW_ERASE ) != 0 );
    if ( flags & RDW_UPDATENOW )
        UpdateWindow( id );
    return IsWindow( id );
}
BOOL ValidateRect( HWND id, const RECT * )
{
    SimRt rt;
    Win * w = find( id );
    if ( w )
        w->dirty = false;
    return w != nullptr;
}
BOOL SetWindowPos( HWND id, HWND, int x, int y, int width, int height, UINT flags )
{
    entered( "SetWindowPos" );
    bool changed = false;
    LPARAM s = 0;
    {
        SimRt rt;
        Win * w = find( id );
        if ( !w )
            return FALSE;
        if ( !( flags & SWP_NOMOVE ) ) {
            w->x = x;
            w->y = y;
        }
        if ( !( flags & SWP_NOSIZE ) ) {
            const bool dirty = w->dirty;
            const RECT update = w->update;
            changed = resize( *w, width - FRAMEX, height - FRAMEY );
            if ( flags & SWP_NOREDRAW ) {
                w->dirty = dirty;
                w->update = update;
            }
        }
        s = size( *w );
    }
    if ( changed )
        call( id, WM_SIZE, 0, s );
    return TRUE;
}
BOOL MoveWindow( HWND id, int x, int y, int width, int height, BOOL repaint )
{
    return SetWindowPos( id, nullptr, x, y, width, height, repaint ? 0 : SWP_NOREDRAW );
}
BOOL AdjustWindowRect( RECT * r, DWORD, BOOL )
{
    r->left -= FRAMEX / 2;
    r->right += FRAMEX / 2;
    r->top -= FRAMEY - FRAMEX / 2;
    r->bottom += FRAMEX / 2;
    return TRUE;
}
BOOL AdjustWindowRectEx( RECT * r, DWORD s, BOOL m, DWORD )
{
    return AdjustWindowRect( r, s, m );
}
BOOL GetClientRect( HWND id, RECT * r )
{
    SimRt rt;
    Win * w = find( id );
    if ( w )
        *r = { 0, 0, w->cw, w->ch };
    return w != nullptr;
}
BOOL GetWindowRect( HWND id, RECT * r )
{
    SimRt rt;
    Win * w = find( id );
    if ( w )
        *r = { w->x, w->y, w->x + w->cw + FRAMEX, w->y + w->ch + FRAMEY };
    return w != nullptr;
}
BOOL SetWindowText( HWND id, LPCSTR t )
{
    SimRt rt;
    Win * w = find( id );
    if ( w )
        w->title = t;
    return w != nullptr;
}
LONG_PTR SetWindowLongPtr( HWND id, int index, LONG_PTR v )
{
    SimRt rt;
    Win * w = find( id );
    if ( !w || index != GWLP_USERDATA )
        return 0;
    std::swap( w->user, v );
    return v;
}
LONG_PTR GetWindowLongPtr( HWND id, int index )
{
    SimRt rt;
    Win * w = find( id );
    return w && index == GWLP_USERDATA ? w->user : 0;
}

namespace
{
    bool take( MSG * m, bool wait )
    {
        const int tid = sim_tid();
        for ( uint32_t n = 0;; ++n ) {
            {
                SimRt rt;
                memset( m, 0, sizeof *m );
                Queue & q = g->queue[tid];
                if ( !q.posted.empty() ) {
                    *m = q.posted.front();
                    q.posted.pop_front();
                    return true;
                }
                if ( q.quit ) {
                    q.quit = false;
                    m->message = WM_QUIT;
                    return true;
                }
                for ( std::map<HWND, Win>::iterator i = g->win.begin(); i != g->win.end(); ++i )
                    if ( i->second.alive && i->second.visible && i->second.dirty && i->second.tid == tid ) {
                        m->hwnd = i->first;
                        m->message = WM_PAINT;
                        return true;
                    }
                if ( !wait && n > 0 )
                    return false;
                for ( std::map<HWND, Win>::iterator i = g->win.begin(); i != g->win.end(); ++i )
                    if ( i->second.alive && i->second.tid == tid ) {
                        i->second.repeated = 0;
                        checkWindow( i->second, "waiting for a message" );
                    }
                if ( n > 1000 )
                    sim_fail( "no-progress", "a thread waits for messages which do not come" );
            }
            world( tid );
        }
    }
}

BOOL GetMessage( MSG * m, HWND, UINT, UINT )
{
    entered( "GetMessage" );
    take( m, true );
    return m->message != WM_QUIT;
}
BOOL PeekMessage( MSG * m, HWND, UINT, UINT, UINT )
{
    entered( "PeekMessage" );
    return take( m, false );
}
BOOL TranslateMessage( const MSG * )
{
    return FALSE;
}
LRESULT DispatchMessage( const MSG * m )
{
    entered( "DispatchMessage" );
    if ( m->message == WM_PAINT ) {
        paintWindow( m->hwnd );
        return 0;
    }
    return m->hwnd ? call( m->hwnd, m->message, m->wParam, m->lParam ) : 0;
}
BOOL PostMessage( HWND id, UINT msg, WPARAM wp, LPARAM lp )
{
    SimRt rt;
    Win * w = find( id );
    if ( !w )
        return FALSE;
    MSG m;
    memset( &m, 0, sizeof m );
    m.hwnd = id;
    m.message = msg;
    m.wParam = wp;
    m.lParam = lp;
    g->queue[w->tid].posted.push_back( m );
    return TRUE;
}
LRESULT SendMessage( HWND id, UINT msg, WPARAM wp, LPARAM lp )
{
    return call( id, msg, wp, lp );
}
void PostQuitMessage( int )
{
    SimRt rt;
    g->queue[sim_tid()].quit = true;
}

LRESULT DefWindowProc( HWND id, UINT msg, WPARAM wp, LPARAM )
{
    switch ( msg ) {
    case WM_NCCREATE:
        return TRUE;
    case WM_SYSCOMMAND:
        if ( ( wp & 0xFFF0 ) == SC_CLOSE )
            call( id, WM_CLOSE, 0, 0 );
        return 0;
    case WM_CLOSE:
        DestroyWindow( id );
        return 0;
    case WM_PAINT: {
        PAINTSTRUCT p;
        BeginPaint( id, &p );
        EndPaint( id, &p );
        return 0;
    }
    case WM_ERASEBKGND: {
        SimRt rt;
        Win * w = find( id );
        if ( !w )
            return 0;
        Dc & d = context( reinterpret_cast<HDC>( wp ) );
        for ( int y = d.clip.top; y < d.clip.bottom; ++y )
            for ( int x = d.clip.left; x < d.clip.right; ++x )
                put( d, x, y, BACKGROUND );
        return 1;
    }
    default:
        return 0;
    }
}

HDC BeginPaint( HWND id, PAINTSTRUCT * p )
{
    entered( "BeginPaint" );
    HDC h;
    bool erase;
    {
        SimRt rt;
        memset( p, 0, sizeof *p );
        Win * w = find( id );
        if ( !w )
            return nullptr;
        if ( w->paint )
            sim_fail( "gdi-error", "BeginPaint is called twice without EndPaint" );
        h = makeContext( id );
        if ( w->visible && w->dirty )
            g->dc[h].clip = w->update;
        w->dirty = false;
        w->paint = h;
        erase = w->erase;
        w->erase = false;
        p->hdc = h;
        p->rcPaint = g->dc[h].clip;
    }
    if ( erase )
        p->fErase = call( id, WM_ERASEBKGND, reinterpret_cast<WPARAM>( h ), 0 ) == 0;
    return h;
}
BOOL EndPaint( HWND id, const PAINTSTRUCT * p )
{
    entered( "EndPaint" );
    SimRt rt;
    Win * w = find( id );
    if ( !w )
        return FALSE;
    if ( w->paint != p->hdc )
        sim_fail( "gdi-error", "EndPaint without BeginPaint" );
    dropContext( p->hdc );
    w->paint = nullptr;
    return TRUE;
}
HDC GetDC( HWND id )
{
    SimRt rt;
    Win * w = find( id );
    if ( !w )
        return nullptr;
    const HDC h = makeContext( id );
    if ( w->visible )
        g->dc[h].clip = { 0, 0, w->cw, w->ch };
    return h;
}
int ReleaseDC( HWND, HDC h )
{
    SimRt rt;
    dropContext( h );
    return 1;
}
int SetStretchBltMode( HDC h, int mode )
{
    SimRt rt;
    std::swap( context( h ).stretch, mode );
    return mode;
}
BOOL SetBrushOrgEx( HDC, int, int, POINT * )
{
    return TRUE;
}

int StretchDIBits( HDC h, int xd, int yd, int wd, int hd, int xs, int ys, int ws, int hs, const void * bits, const BITMAPINFO * info, UINT usage, DWORD rop )
{
    entered( "StretchDIBits" );
    SimRt rt;
    Dc & d = context( h );
    if ( !sim_heap_valid( info, sizeof( BITMAPINFOHEADER ) ) )
        sim_fail( "gdi-memory", "the description of a picture is not in valid memory" );
    const BITMAPINFOHEADER & b = info->bmiHeader;
    const int height = b.biHeight < 0 ? -b.biHeight : b.biHeight;
    if ( b.biSize != sizeof b || b.biPlanes != 1 || b.biCompression != BI_RGB || usage != DIB_RGB_COLORS || rop != SRCCOPY || b.biWidth <= 0 || height <= 0
         || ( b.biBitCount != 8 && b.biBitCount != 24 && b.biBitCount != 32 ) )
        return 0;
    const size_t stride = ( size_t( b.biWidth ) * b.biBitCount + 31 ) / 32 * 4;
    if ( !sim_heap_valid( bits, stride * size_t( height ) ) )
        sim_fail( "gdi-memory", "a picture of %dx%d pixels of %u bits does not fit into its memory", int( b.biWidth ), height, unsigned( b.biBitCount ) );
    const size_t colours = b.biBitCount == 8 ? ( b.biClrUsed ? b.biClrUsed : 256 ) : 0;
    if ( colours > 256 || !sim_heap_valid( info, sizeof b + colours * sizeof( RGBQUAD ) ) )
        sim_fail( "gdi-memory", "a palette of %zu colours does not fit into its memory", colours );
    if ( ws <= 0 || hs <= 0 || wd <= 0 || hd <= 0 || xs < 0 || ys < 0 || xs + ws > b.biWidth || ys + hs > height )
        return 0;
    const int top = b.biHeight > 0 ? height - ys - hs : ys;
    const uint8_t * data = static_cast<const uint8_t *>( bits );
    auto pixel = [&]( int x, int y ) {
        const uint8_t * row = data + stride * size_t( b.biHeight > 0 ? height - 1 - y : y );
        if ( b.biBitCount == 8 ) {
            const uint8_t v = row[x];
            if ( v >= colours )
                return 0u;
            const RGBQUAD q = info->bmiColors[v];
            return uint32_t( q.rgbRed ) << 16 | uint32_t( q.rgbGreen ) << 8 | q.rgbBlue;
        }
        const uint8_t * p = row + x * ( b.biBitCount / 8 );
        return uint32_t( p[2] ) << 16 | uint32_t( p[1] ) << 8 | p[0];
    };
    for ( int y = 0; y < hd; ++y )
        for ( int x = 0; x < wd; ++x ) {
            const int x0 = x * ws / wd, y0 = y * hs / hd;
            uint32_t v = pixel( xs + x0, top + y0 );
            if ( d.stretch == BLACKONWHITE || d.stretch == WHITEONBLACK ) // lines which are left out are combined with the remaining ones
                for ( int j = y0; j < std::max( y0 + 1, ( y + 1 ) * hs / hd ); ++j )
                    for ( int i = x0; i < std::max( x0 + 1, ( x + 1 ) * ws / wd ); ++i )
                        v = d.stretch == BLACKONWHITE ? v & pixel( xs + i, top + j ) : v | pixel( xs + i, top + j );
            put( d, xd + x, yd + y, v );
        }
    return hs;
}

HPEN CreatePen( int, int, COLORREF c )
{
    SimRt rt;
    if ( g->refusePens && sim_draw( ST_MISC, g->refusePens ) == g->refusePens - 1 ) {
        for ( std::map<HWND, Win>::iterator i = g->win.begin(); i != g->win.end(); ++i )
            if ( i->second.tid == sim_tid() )
                i->second.tainted = true;
        sim_count( "fault.refused-pen", 1 );
        return nullptr;
    }
    const HPEN h = handle<HPEN>();
    g->pen[h].colour = ( c & 0xFF ) << 16 | ( c & 0xFF00 ) | ( c >> 16 & 0xFF );
    return h;
}
HGDIOBJ GetStockObject( int )
{
    return g->black;
}
HGDIOBJ SelectObject( HDC h, HGDIOBJ o )
{
    SimRt rt;
    Dc & d = context( h );
    if ( o == nullptr )
        return nullptr;
    if ( !g->pen.count( o ) || !g->pen[o].live )
        sim_fail( "gdi-error", "a drawing tool which does not exist is used" );
    const HGDIOBJ old = d.pen;
    g->pen[old].in = nullptr;
    d.pen = o;
    if ( !g->pen[o].stock )
        g->pen[o].in = h;
    return old;
}
BOOL DeleteObject( HGDIOBJ o )
{
    SimRt rt;
    if ( o == nullptr || !g->pen.count( o ) )
        return FALSE;
    Pen & p = g->pen[o];
    if ( p.stock )
        return TRUE;
    if ( !p.live )
        sim_fail( "gdi-error", "a drawing tool is deleted twice" );
    if ( p.in )
        return FALSE; // it is in use
    p.live = false;
    return TRUE;
}
BOOL MoveToEx( HDC h, int x, int y, POINT * )
{
    SimRt rt;
    context( h ).at = { x, y };
    return TRUE;
}
BOOL LineTo( HDC h, int x, int y )
{
    SimRt rt;
    Dc & d = context( h );
    const int dx = x - d.at.x, dy = y - d.at.y, n = std::max( std::abs( dx ), std::abs( dy ) );
    if ( n > 100000 )
        sim_fail( "gdi-error", "a line of %d pixels", n );
    const uint32_t colour = g->pen[d.pen].colour;
    for ( int i = 0; i < n; ++i ) // without the last pixel
        put( d, d.at.x + ( 2 * dx * i + ( dx < 0 ? -n : n ) ) / ( 2 * n ), d.at.y + ( 2 * dy * i + ( dy < 0 ? -n : n ) ) / ( 2 * n ), colour );
    d.at = { x, y };
    return TRUE;
}
BOOL Polyline( HDC h, const POINT * p, int n )
{
    const POINT at = context( h ).at;
    for ( int i = 0; i < n; ++i )
        if ( i == 0 )
            MoveToEx( h, p[0].x, p[0].y, nullptr );
        else
            LineTo( h, p[i].x, p[i].y );
    MoveToEx( h, at.x, at.y, nullptr );
    return TRUE;
}
BOOL Arc( HDC h, int left, int top, int right, int bottom, int xs, int ys, int xe, int ye )
{
    SimRt rt;
    Dc & d = context( h );
    if ( xs != xe || ys != ye )
        sim_fail( "harness", "a part of an ellipse" );
    if ( left > right )
        std::swap( left, right );
    if ( top > bottom )
        std::swap( top, bottom );
    if ( right - left < 1 || bottom - top < 1 )
        return TRUE;
    const double rx = ( right - 1 - left ) / 2.0, ry = ( bottom - 1 - top ) / 2.0;
    const int n = 16 + int( 8 * ( rx + ry ) );
    for ( int i = 0; i < n; ++i )
        put( d, int( std::lround( left + rx + rx * std::cos( i * 6.283185307179586 / n ) ) ), int( std::lround( top + ry + ry * std::sin( i * 6.283185307179586 / n ) ) ),
             g->pen[d.pen].colour );
    return TRUE;
}
BOOL Ellipse( HDC h, int left, int top, int right, int bottom )
{
    return Arc( h, left, top, right, bottom, 0, 0, 0, 0 );
}
COLORREF SetPixel( HDC h, int x, int y, COLORREF c )
{
    SimRt rt;
    put( context( h ), x, y, ( c & 0xFF ) << 16 | ( c & 0xFF00 ) | ( c >> 16 & 0xFF ) );
    return c;
}
void DebugBreak()
{
    sim_fail( "terminated", "DebugBreak() ends a process without a debugger" );
}
}

namespace
{
    uint32_t shade( uint64_t & s )
    {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        return uint32_t( s >> 40 ) & 0xFFFFFFu;
    }

    penguinV::Image makePicture( Picture & p, uint8_t colours, uint8_t alignment, uint64_t seed )
    {
        penguinV::Image i( p.w, p.h, colours, alignment );
        SimRt rt;
        p.px.assign( size_t( p.w ) * p.h, 0 );
        for ( uint32_t y = 0; y < p.h; ++y )
            for ( uint32_t x = 0; x < i.rowSize(); ++x ) {
                const uint8_t v = uint8_t( shade( seed ) );
                i.data()[size_t( y ) * i.rowSize() + x] = v;
                if ( x < p.w * colours ) {
                    if ( colours == 1 )
                        p.px[y * p.w + x] = v * 0x010101u;
                    else
                        p.px[y * p.w + x / 3] |= uint32_t( v ) << ( 8 * ( x % 3 ) );
                }
            }
        return i;
    }

    penguinV::Image somePicture( Picture & p )
    {
        static const uint32_t side[] = { 1, 2, 3, 5, 8, 13, 20, 33 };
        p.w = side[sim_choose( 8 )];
        p.h = side[sim_choose( 8 )];
        if ( sim_choose( 12 ) == 11 )
            p.w = p.h = 0;
        const uint8_t colours = sim_choose( 2 ) ? 3 : 1, alignment = uint8_t( 1u << sim_choose( 4 ) );
        return makePicture( p, colours, alignment, sim_choose( 1000 ) );
    }

    struct Object
    {
        std::unique_ptr<UiWindowWin> ui;
        HWND id = nullptr;
        Expected want;
        bool shown = false;
    };

    Win & windowOf( Object & o )
    {
        return g->win[o.id];
    }

    void checkSize( Object & o )
    {
        SimRt rt;
        const Win & w = windowOf( o );
        if ( o.want.now.w == 0 || !o.want.known )
            return;
        uint32_t sw, sh;
        shownSize( o.want.now, sw, sh );
        const int ew = std::max( int( sw ), w.minw ), eh = std::max( int( sh ), w.minh );
        const int tolerance = sw == o.want.now.w && sh == o.want.now.h ? 0 : 1;
        if ( std::abs( w.cw - ew ) > tolerance || std::abs( w.ch - eh ) > tolerance )
            sim_fail( "wrong-size", "a window for an image %ux%u on a screen %dx%d has the size %dx%d instead of %dx%d", o.want.now.w, o.want.now.h, g->screen[0], g->screen[1],
                      w.cw, w.ch, ew, eh );
    }

    bool g_faults = false; // this run has failures

    // a call which displays the window if it is shown
    template <typename F>
    bool perform( Object & o, const char * what, const F & f )
    {
        {
            SimRt rt;
            g->queue[sim_tid()].budget = sim_choose( 7 );
            windowOf( o ).closeSent = windowOf( o ).closeRead = false;
        }
        bool failed = false;
        {
            SimSut sut;
            try {
                f();
            }
            catch ( ... ) {
                failed = true;
            }
        }
        if ( failed ) {
            if ( sim_alloc_failed() == 0 && !g->refused )
                sim_fail( "unexpected-exception", "%s fails", what );
            sim_count( "probe.failed-call", 1 );
            return false;
        }
        if ( o.shown && !windowOf( o ).closeRead )
            sim_fail( "early-return", "%s has returned but the user has neither seen the window nor closed it", what );
        return true;
    }

    void draw( Object & o )
    {
        const uint32_t w = o.want.now.w ? o.want.now.w : 10, h = o.want.now.h ? o.want.now.h : 10;
        auto at = [&]( uint32_t n ) { return double( sim_choose( n * 4 + 8 ) ) / 4 - 1; };
        const uint32_t kind = sim_choose( 4 );
        const double x = at( w ), y = at( h ), x2 = at( w ), y2 = at( h );
        const uint8_t r = uint8_t( sim_choose( 256 ) ), gr = uint8_t( sim_choose( 256 ) ), b = uint8_t( sim_choose( 256 ) );
        const uint32_t colour = uint32_t( r ) << 16 | uint32_t( gr ) << 8 | b;
        const PaintColor c( r, gr, b, uint8_t( sim_choose( 256 ) ) );
        std::vector<Figure> add;
        {
            SimRt rt;
            if ( kind == 0 )
                add.push_back( { 0, x, y, 0, 0, colour } );
            else if ( kind == 1 )
                add.push_back( { 1, x, y, x2, y2, colour } );
            else if ( kind == 2 )
                add.push_back( { 2, x, y, std::fabs( x2 - x ), std::fabs( y2 - y ), colour } );
            else {
                add.push_back( { 1, x, y, x2, y, colour } );
                add.push_back( { 1, x, y, x, y2, colour } );
                add.push_back( { 1, x2, y, x2, y2, colour } );
                add.push_back( { 1, x, y2, x2, y2, colour } );
            }
            if ( g_faults )
                o.want.maybe = add;
            else
                o.want.figures.insert( o.want.figures.end(), add.begin(), add.end() );
        }
        const bool ok = perform( o, "drawing", [&] {
            if ( kind == 0 )
                o.ui->drawPoint( Point2d( x, y ), c );
            else if ( kind == 1 )
                o.ui->drawLine( Point2d( x, y ), Point2d( x2, y2 ), c );
            else if ( kind == 2 )
                o.ui->drawEllipse( Point2d( x, y ), std::fabs( x2 - x ), std::fabs( y2 - y ), c );
            else
                o.ui->drawRectangle( Point2d( x, y ), x2 - x, y2 - y, c );
        } );
        SimRt rt;
        o.want.maybe.clear();
        if ( ok && g_faults )
            o.want.figures.insert( o.want.figures.end(), add.begin(), add.end() );
    }

    void replace( Object & o )
    {
        Picture p;
        penguinV::Image image = somePicture( p );
        {
            SimRt rt;
            o.want.before = o.want.now;
            o.want.now = p;
            o.want.known = !g_faults;
        }
        const bool ok = perform( o, "setImage", [&] { o.ui->setImage( image ); } );
        SimRt rt;
        if ( !ok )
            o.want.now = o.want.before;
        o.want.known = true;
        sim_count( "probe.image-replaced", 1 );
        if ( ok && !o.shown )
            checkSize( o );
    }

    void open( std::vector<std::unique_ptr<Object>> & all )
    {
        static const char * titles[] = { "", "a", "penguin", "a title which is a bit longer than others" };
        std::unique_ptr<Object> o( new Object );
        Picture p;
        penguinV::Image image = somePicture( p );
        std::string title = titles[sim_choose( 4 )];
        bool failed = false;
        {
            SimSut sut;
            try {
                o->ui.reset( new UiWindowWin( image, title ) );
            }
            catch ( ... ) {
                failed = true;
            }
        }
        SimRt rt;
        const HWND last = g->win.empty() ? nullptr : [] {
            HWND r = nullptr;
            for ( std::map<HWND, Win>::iterator i = g->win.begin(); i != g->win.end(); ++i )
                if ( i->second.tid == sim_tid() )
                    r = i->first;
            return r;
        }();
        if ( failed ) {
            if ( sim_alloc_failed() == 0 && !g->refused )
                sim_fail( "unexpected-exception", "a window for an image %ux%u cannot be created", p.w, p.h );
            if ( last && find( last ) && !find( last )->want )
                sim_fail( "window-leak", "a window is not destroyed although its object could not be created" );
            sim_count( "probe.failed-call", 1 );
            return;
        }
        o->id = last;
        o->want.now = p;
        o->want.title = title;
        if ( !last || !find( last ) )
            sim_fail( "no-window", "an object has no window" );
        g->win[last].want = &o->want;
        checkSize( *o );
        all.push_back( std::move( o ) );
    }

    void close( std::vector<std::unique_ptr<Object>> & all, size_t i )
    {
        std::unique_ptr<Object> o = std::move( all[i] );
        all.erase( all.begin() + long( i ) );
        {
            SimSut sut;
            o->ui.reset();
        }
        SimRt rt;
        if ( find( o->id ) )
            sim_fail( "window-leak", "a window is not destroyed together with its object" );
        g->win[o->id].want = nullptr;
    }

    void session()
    {
        std::vector<std::unique_ptr<Object>> all;
        const uint32_t steps = 2 + sim_choose( 7 );
        for ( uint32_t s = 0; s < steps; ++s ) {
            const uint32_t what = sim_choose( 8 );
            if ( all.empty() || ( what == 0 && all.size() < 2 ) ) {
                open( all );
                continue;
            }
            const uint32_t i = sim_choose( uint32_t( all.size() ) );
            Object & o = *all[i];
            switch ( what ) {
            case 1:
                close( all, i );
                break;
            case 2:
            case 3:
                draw( o );
                break;
            case 4:
                replace( o );
                break;
            default: {
                const bool was = o.shown;
                o.shown = true;
                if ( !perform( o, "show", [&] { o.ui->show(); } ) )
                    o.shown = was;
            }
            }
        }
        while ( !all.empty() )
            close( all, all.size() - 1 );
    }

    void finish( uint64_t serial )
    {
        SimRt rt;
        for ( std::map<HWND, Win>::iterator i = g->win.begin(); i != g->win.end(); ++i )
            if ( i->second.alive )
                sim_fail( "window-leak", "a window outlives the program" );
        if ( !g->dc.empty() )
            sim_fail( "gdi-leak", "a device context is not released" );
        for ( std::map<HGDIOBJ, Pen>::iterator i = g->pen.begin(); i != g->pen.end(); ++i )
            if ( i->second.live && !i->second.stock )
                sim_fail( "gdi-leak", "a drawing tool is not deleted" );
        char b[400];
        if ( sim_live_blocks( serial, b, sizeof b ) != 0 )
            sim_fail( "leak", "windows leak:%s", b );
    }

    void ui_win()
    {
        {
            SimRt rt;
            g = new Desktop;
            g->black = handle<HPEN>();
            g->pen[g->black].stock = true;
            static const int sizes[] = { 1000, 40, 24, 10 };
            g->screen[0] = sizes[sim_choose( 4 )];
            g->screen[1] = sizes[sim_choose( 4 )];
            g->minimum = sim_choose( 4 ) == 3 ? 12 : 1;
        }
        const uint64_t serial = sim_alloc_serial();
        const uint32_t kind = sim_choose( 5 );
        if ( kind == 1 || kind == 2 ) {
            SimRt rt;
            g_faults = true;
            if ( kind == 2 )
                sim_alloc_fail_at( 1 + sim_choose( 16 ) );
            else
                switch ( sim_choose( 4 ) ) {
                case 0:
                    g->refuseClass = 1;
                    break;
                case 1:
                    g->refuseWindow = 1 + sim_choose( 2 );
                    break;
                default:
                    g->refusePens = 1 + sim_choose( 3 );
                }
        }
        if ( kind == 3 ) {
            std::thread a( [] { session(); } ), b( [] { session(); } );
            a.join();
            b.join();
        }
        else
            session();
        if ( g_faults ) {
            {
                SimRt rt;
                g_faults = false;
                g->refuseClass = g->refuseWindow = g->refusePens = 0;
                sim_alloc_fail_at( 0 );
                g->refused = false;
            }
            session();
        }
        finish( serial );
        sim_exit_normally();
    }

    SimScenario s1( "ui_win", ui_win );
}
