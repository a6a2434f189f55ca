// The part of the Windows API which a window of the library could need, implemented by SimWin (scn_uiwin.cpp).
#pragma once
#include <cstddef>
#include <cstdint>

#define __stdcall
#define CALLBACK
#define WINAPI
typedef int BOOL;
typedef uint8_t BYTE;
typedef uint16_t WORD;
typedef uint32_t DWORD;
typedef int32_t LONG;
typedef unsigned int UINT;
typedef intptr_t INT_PTR;
typedef uintptr_t UINT_PTR;
typedef intptr_t LONG_PTR;
typedef uintptr_t ULONG_PTR;
typedef UINT_PTR WPARAM;
typedef LONG_PTR LPARAM;
typedef LONG_PTR LRESULT;
typedef WORD ATOM;
typedef DWORD COLORREF;
typedef void * HANDLE;
typedef void * HGDIOBJ;
typedef void * LPVOID;
typedef const char * LPCSTR;
#define DECLARE_HANDLE( name )                                                                                                                                           \
    struct name##__;                                                                                                                                                     \
    typedef struct name##__ * name
DECLARE_HANDLE( HWND );
DECLARE_HANDLE( HDC );
DECLARE_HANDLE( HINSTANCE );
DECLARE_HANDLE( HICON );
DECLARE_HANDLE( HMENU );
DECLARE_HANDLE( HBRUSH );
DECLARE_HANDLE( HPEN );
DECLARE_HANDLE( HRGN );
typedef HICON HCURSOR;
typedef HINSTANCE HMODULE;
#ifndef NULL
#define NULL 0
#endif
#define TRUE 1
#define FALSE 0

typedef struct
{
    LONG left, top, right, bottom;
} RECT;
typedef struct
{
    LONG x, y;
} POINT;
typedef struct
{
    HWND hwnd;
    UINT message;
    WPARAM wParam;
    LPARAM lParam;
    DWORD time;
    POINT pt;
} MSG;
typedef struct
{
    HDC hdc;
    BOOL fErase;
    RECT rcPaint;
    BOOL fRestore, fIncUpdate;
    BYTE rgbReserved[32];
} PAINTSTRUCT;
typedef struct
{
    DWORD biSize;
    LONG biWidth, biHeight;
    WORD biPlanes, biBitCount;
    DWORD biCompression, biSizeImage;
    LONG biXPelsPerMeter, biYPelsPerMeter;
    DWORD biClrUsed, biClrImportant;
} BITMAPINFOHEADER;
typedef struct
{
    BYTE rgbBlue, rgbGreen, rgbRed, rgbReserved;
} RGBQUAD;
typedef struct
{
    BITMAPINFOHEADER bmiHeader;
    RGBQUAD bmiColors[1];
} BITMAPINFO;
typedef struct
{
    LPVOID lpCreateParams;
    HINSTANCE hInstance;
    HMENU hMenu;
    HWND hwndParent;
    int cy, cx, y, x;
    LONG style;
    LPCSTR lpszName, lpszClass;
    DWORD dwExStyle;
} CREATESTRUCT;
typedef LRESULT ( *WNDPROC )( HWND, UINT, WPARAM, LPARAM );
typedef struct
{
    UINT cbSize, style;
    WNDPROC lpfnWndProc;
    int cbClsExtra, cbWndExtra;
    HINSTANCE hInstance;
    HICON hIcon;
    HCURSOR hCursor;
    HBRUSH hbrBackground;
    LPCSTR lpszMenuName, lpszClassName;
    HICON hIconSm;
} WNDCLASSEX;
typedef CREATESTRUCT CREATESTRUCTA;
typedef WNDCLASSEX WNDCLASSEXA;
#define CreateWindowExA CreateWindowEx
#define RegisterClassExA RegisterClassEx

enum
{
    WM_NULL = 0,
    WM_CREATE = 1,
    WM_DESTROY = 2,
    WM_MOVE = 3,
    WM_SIZE = 5,
    WM_PAINT = 15,
    WM_CLOSE = 16,
    WM_QUIT = 18,
    WM_ERASEBKGND = 20,
    WM_SHOWWINDOW = 24,
    WM_ACTIVATEAPP = 28,
    WM_SETCURSOR = 32,
    WM_GETMINMAXINFO = 36,
    WM_WINDOWPOSCHANGED = 71,
    WM_NCCREATE = 129,
    WM_NCDESTROY = 130,
    WM_NCCALCSIZE = 131,
    WM_KEYDOWN = 256,
    WM_KEYUP = 257,
    WM_CHAR = 258,
    WM_SYSCOMMAND = 274,
    WM_TIMER = 275,
    WM_MOUSEMOVE = 512,
    WM_LBUTTONDOWN = 513,
    WM_USER = 1024
};
#define SC_CLOSE 0xF060
#define GWLP_USERDATA ( -21 )
#define SW_HIDE 0
#define SW_SHOWNORMAL 1
#define SW_NORMAL 1
#define SW_SHOW 5
#define SW_MINIMIZE 6
#define SW_RESTORE 9
#define SW_SHOWDEFAULT 10
#define CS_VREDRAW 1u
#define CS_HREDRAW 2u
#define CS_OWNDC 32u
#define WS_OVERLAPPEDWINDOW 0xCF0000u
#define WS_VISIBLE 0x10000000u
#define CW_USEDEFAULT ( int( 0x80000000 ) )
#define COLOR_WINDOW 5
#define IDC_CROSS reinterpret_cast<LPCSTR>( 32515 )
#define IDC_ARROW reinterpret_cast<LPCSTR>( 32512 )
#define SM_CXSCREEN 0
#define SM_CYSCREEN 1
#define PS_SOLID 0
#define BI_RGB 0u
#define DIB_RGB_COLORS 0u
#define SRCCOPY 0x00CC0020u
#define BLACKONWHITE 1
#define WHITEONBLACK 2
#define COLORONCOLOR 3
#define HALFTONE 4
#define STRETCH_DELETESCANS 3
#define PM_NOREMOVE 0u
#define PM_REMOVE 1u
#define SWP_NOSIZE 1u
#define SWP_NOMOVE 2u
#define SWP_NOZORDER 4u
#define SWP_NOREDRAW 8u
#define SWP_NOACTIVATE 16u
#define RDW_INVALIDATE 1u
#define RDW_ERASE 4u
#define RDW_UPDATENOW 256u
#define WHITE_PEN 6
#define BLACK_PEN 7
#define NULL_BRUSH 5
#define HOLLOW_BRUSH 5
#define GWL_STYLE ( -16 )
#define GDI_ERROR 0xFFFFFFFFu
#define RGB( r, g, b ) ( static_cast<COLORREF>( static_cast<BYTE>( r ) | ( static_cast<WORD>( static_cast<BYTE>( g ) ) << 8 ) | ( static_cast<DWORD>( static_cast<BYTE>( b ) ) << 16 ) ) )
#define LOWORD( v ) static_cast<WORD>( v )
#define HIWORD( v ) static_cast<WORD>( static_cast<uintptr_t>( v ) >> 16 )

extern "C" {
ATOM RegisterClassEx( const WNDCLASSEX * c );
BOOL UnregisterClass( LPCSTR name, HINSTANCE );
HCURSOR LoadCursor( HINSTANCE, LPCSTR );
HMODULE GetModuleHandle( LPCSTR );
int GetSystemMetrics( int index );
DWORD GetLastError();
HWND CreateWindowEx( DWORD exStyle, LPCSTR className, LPCSTR name, DWORD style, int x, int y, int width, int height, HWND parent, HMENU, HINSTANCE, LPVOID param );
BOOL DestroyWindow( HWND );
BOOL IsWindow( HWND );
BOOL IsWindowVisible( HWND );
BOOL ShowWindow( HWND, int how );
BOOL UpdateWindow( HWND );
BOOL InvalidateRect( HWND, const RECT *, BOOL erase );
BOOL RedrawWindow( HWND, const RECT *, HRGN, UINT flags );
BOOL ValidateRect( HWND, const RECT * );
BOOL MoveWindow( HWND, int x, int y, int width, int height, BOOL repaint );
BOOL SetWindowPos( HWND, HWND after, int x, int y, int width, int height, UINT flags );
BOOL AdjustWindowRect( RECT *, DWORD style, BOOL menu );
BOOL AdjustWindowRectEx( RECT *, DWORD style, BOOL menu, DWORD exStyle );
BOOL GetClientRect( HWND, RECT * );
BOOL GetWindowRect( HWND, RECT * );
BOOL SetWindowText( HWND, LPCSTR );
LONG_PTR SetWindowLongPtr( HWND, int index, LONG_PTR value );
LONG_PTR GetWindowLongPtr( HWND, int index );
BOOL GetMessage( MSG *, HWND, UINT, UINT );
BOOL PeekMessage( MSG *, HWND, UINT, UINT, UINT remove );
BOOL TranslateMessage( const MSG * );
LRESULT DispatchMessage( const MSG * );
BOOL PostMessage( HWND, UINT, WPARAM, LPARAM );
LRESULT SendMessage( HWND, UINT, WPARAM, LPARAM );
void PostQuitMessage( int );
LRESULT DefWindowProc( HWND, UINT, WPARAM, LPARAM );
HDC BeginPaint( HWND, PAINTSTRUCT * );
BOOL EndPaint( HWND, const PAINTSTRUCT * );
HDC GetDC( HWND );
int ReleaseDC( HWND, HDC );
int SetStretchBltMode( HDC, int mode );
BOOL SetBrushOrgEx( HDC, int x, int y, POINT * );
int StretchDIBits( HDC, int xDest, int yDest, int wDest, int hDest, int xSrc, int ySrc, int wSrc, int hSrc, const void * bits, const BITMAPINFO *, UINT usage, DWORD rop );
HPEN CreatePen( int style, int width, COLORREF );
HGDIOBJ GetStockObject( int );
HGDIOBJ SelectObject( HDC, HGDIOBJ );
BOOL DeleteObject( HGDIOBJ );
BOOL MoveToEx( HDC, int x, int y, POINT * );
BOOL LineTo( HDC, int x, int y );
BOOL Polyline( HDC, const POINT *, int count );
BOOL Arc( HDC, int left, int top, int right, int bottom, int xs, int ys, int xe, int ye );
BOOL Ellipse( HDC, int left, int top, int right, int bottom );
COLORREF SetPixel( HDC, int x, int y, COLORREF );
void DebugBreak();
}
