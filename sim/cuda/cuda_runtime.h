// The part of the CUDA runtime API which the library could use, for the simulated devices of simcuda.cpp. Kernels are ordinary functions; a launch
// f<<<grid, block, shared, stream>>>( arguments ) is rewritten by harness/build.py to SIMCUDA_LAUNCH( f, ( grid, block, shared, stream ), arguments ).
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#define __global__
#define __device__
#define __host__
#define __constant__
#define __shared__ static
#define __forceinline__ inline
#define __restrict__
#define CUDART_VERSION 12040
#define CUDART_CB

enum cudaError
{
    cudaSuccess = 0,
    cudaErrorInvalidValue = 1,
    cudaErrorMemoryAllocation = 2,
    cudaErrorInitializationError = 3,
    cudaErrorInvalidConfiguration = 9,
    cudaErrorInvalidPitchValue = 12,
    cudaErrorInvalidDevicePointer = 17,
    cudaErrorInvalidMemcpyDirection = 21,
    cudaErrorNoDevice = 100,
    cudaErrorInvalidDevice = 101,
    cudaErrorInvalidResourceHandle = 400,
    cudaErrorNotReady = 600,
    cudaErrorLaunchFailure = 719,
    cudaErrorUnknown = 999
};
typedef enum cudaError cudaError_t;

enum cudaMemcpyKind
{
    cudaMemcpyHostToHost = 0,
    cudaMemcpyHostToDevice = 1,
    cudaMemcpyDeviceToHost = 2,
    cudaMemcpyDeviceToDevice = 3,
    cudaMemcpyDefault = 4
};

struct uint3
{
    unsigned int x, y, z;
};
struct dim3
{
    unsigned int x, y, z;
    dim3( unsigned int x_ = 1, unsigned int y_ = 1, unsigned int z_ = 1 )
        : x( x_ )
        , y( y_ )
        , z( z_ )
    {
    }
    dim3( uint3 v )
        : x( v.x )
        , y( v.y )
        , z( v.z )
    {
    }
};
struct float2
{
    float x, y;
};
struct double2
{
    double x, y;
};

struct cudaDeviceProp
{
    char name[256];
    size_t totalGlobalMem;
    size_t sharedMemPerBlock;
    int warpSize;
    int maxThreadsPerBlock;
    int maxThreadsDim[3];
    int maxGridSize[3];
    int major, minor;
    int multiProcessorCount;
    int asyncEngineCount;
    int concurrentKernels;
};

struct CUstream_st;
struct CUevent_st;
typedef CUstream_st * cudaStream_t;
typedef CUevent_st * cudaEvent_t;
typedef void ( *cudaStreamCallback_t )( cudaStream_t stream, cudaError_t status, void * userData );
#define cudaStreamDefault 0x00
#define cudaStreamNonBlocking 0x01
#define cudaHostAllocDefault 0x00
#define cudaEventDefault 0x00
#define cudaEventDisableTiming 0x02

extern "C" {
cudaError_t cudaGetDeviceCount( int * count );
cudaError_t cudaGetDevice( int * device );
cudaError_t cudaSetDevice( int device );
cudaError_t cudaGetDeviceProperties( cudaDeviceProp * prop, int device );
cudaError_t cudaMemGetInfo( size_t * free, size_t * total );
cudaError_t cudaDeviceSynchronize( void );
cudaError_t cudaGetLastError( void );
cudaError_t cudaPeekAtLastError( void );
const char * cudaGetErrorString( cudaError_t error );
const char * cudaGetErrorName( cudaError_t error );
cudaError_t simcuda_malloc( void ** p, size_t size );
cudaError_t cudaFree( void * p );
cudaError_t simcuda_mallocHost( void ** p, size_t size );
cudaError_t cudaFreeHost( void * p );
cudaError_t cudaMemcpy( void * dst, const void * src, size_t count, cudaMemcpyKind kind );
cudaError_t cudaMemcpyAsync( void * dst, const void * src, size_t count, cudaMemcpyKind kind, cudaStream_t stream = 0 );
cudaError_t cudaMemcpy2D( void * dst, size_t dpitch, const void * src, size_t spitch, size_t width, size_t height, cudaMemcpyKind kind );
cudaError_t cudaMemcpy2DAsync( void * dst, size_t dpitch, const void * src, size_t spitch, size_t width, size_t height, cudaMemcpyKind kind, cudaStream_t stream = 0 );
cudaError_t cudaMemset( void * p, int value, size_t count );
cudaError_t cudaMemsetAsync( void * p, int value, size_t count, cudaStream_t stream = 0 );
cudaError_t cudaMemset2D( void * p, size_t pitch, int value, size_t width, size_t height );
cudaError_t cudaStreamCreate( cudaStream_t * stream );
cudaError_t cudaStreamCreateWithFlags( cudaStream_t * stream, unsigned int flags );
cudaError_t cudaStreamDestroy( cudaStream_t stream );
cudaError_t cudaStreamSynchronize( cudaStream_t stream );
cudaError_t cudaStreamQuery( cudaStream_t stream );
cudaError_t cudaStreamAddCallback( cudaStream_t stream, cudaStreamCallback_t callback, void * userData, unsigned int flags );
cudaError_t cudaEventCreate( cudaEvent_t * event );
cudaError_t cudaEventCreateWithFlags( cudaEvent_t * event, unsigned int flags );
cudaError_t cudaEventRecord( cudaEvent_t event, cudaStream_t stream = 0 );
cudaError_t cudaEventSynchronize( cudaEvent_t event );
cudaError_t cudaEventDestroy( cudaEvent_t event );
cudaError_t cudaStreamWaitEvent( cudaStream_t stream, cudaEvent_t event, unsigned int flags = 0 );

// inside of kernels
uint3 simcuda_index( int what ); // 0 thread, 1 block, 2 size of a block, 3 size of the grid
void simcuda_barrier( void );
void simcuda_atomic( void * p, size_t n );
// launches
void simcuda_launch( const char * name, dim3 grid, dim3 block, size_t shared, cudaStream_t stream, void * call, size_t size, void ( *run )( void * ), void ( *drop )( void * ),
                     bool grouped );
void simcuda_attach( const char * what ); // notes what is started in a trace
}

template <typename T>
inline cudaError_t cudaMalloc( T ** p, size_t size )
{
    return simcuda_malloc( reinterpret_cast<void **>( p ), size );
}
template <typename T>
inline cudaError_t cudaMallocHost( T ** p, size_t size )
{
    return simcuda_mallocHost( reinterpret_cast<void **>( p ), size );
}
template <typename T>
inline cudaError_t cudaHostAlloc( T ** p, size_t size, unsigned int )
{
    return simcuda_mallocHost( reinterpret_cast<void **>( p ), size );
}

#define threadIdx ( simcuda_index( 0 ) )
#define blockIdx ( simcuda_index( 1 ) )
#define blockDim ( simcuda_index( 2 ) )
#define gridDim ( simcuda_index( 3 ) )
#define warpSize 32
#define __syncthreads simcuda_barrier
#define __threadfence() ( (void)0 )
#define __threadfence_block() ( (void)0 )

namespace simcuda
{
    template <typename T, typename F>
    __attribute__( ( no_sanitize( "thread" ) ) ) inline T atomic( T * p, F f )
    {
        simcuda_atomic( p, sizeof( T ) );
        const T old = *p;
        *p = f( old );
        return old;
    }

#ifdef SIMCUDA_GROUPED
    const bool GROUPED = true;
#else
    const bool GROUPED = false;
#endif

    template <typename F, typename... A>
    struct Call
    {
        F f;
        std::tuple<A...> a;
        static void run( void * p )
        {
            Call * c = static_cast<Call *>( p );
            std::apply( c->f, c->a );
        }
        static void drop( void * p )
        {
            static_cast<Call *>( p )->~Call();
        }
    };

    template <typename F, typename... A>
    inline void start( const char * name, dim3 grid, dim3 block, size_t shared, cudaStream_t stream, F f, A... a )
    {
        typedef Call<F, A...> C;
        alignas( C ) unsigned char place[sizeof( C )];
        C * c = new ( place ) C{ f, std::tuple<A...>( a... ) };
        simcuda_launch( name, grid, block, shared, stream, c, sizeof( C ), &C::run, &C::drop, GROUPED ); // the bytes are copied
    }

    struct Config
    {
        dim3 grid, block;
        size_t shared;
        cudaStream_t stream;
        Config( dim3 g, dim3 b, size_t s = 0, cudaStream_t st = 0 )
            : grid( g )
            , block( b )
            , shared( s )
            , stream( st )
        {
        }
        template <typename F, typename... A>
        void operator()( const char * name, F f, A... a ) const
        {
            start( name, grid, block, shared, stream, f, a... );
        }
    };
}

#define SIMCUDA_LAUNCH( F, CFG, ... ) simcuda::Config CFG( #F, [=]( auto... simcudaArg ) { ( F )( simcudaArg... ); }, __VA_ARGS__ )
#define SIMCUDA_LAUNCH0( F, CFG ) simcuda::Config CFG( #F, [=]() { ( F )(); } )

#define SIMCUDA_ATOMIC( NAME, EXPR )                                                                                                                 \
    template <typename T, typename U>                                                                                                                \
    inline T NAME( T * p, U v )                                                                                                                      \
    {                                                                                                                                                \
        return simcuda::atomic( p, [v]( T old ) -> T { return static_cast<T>( EXPR ); } );                                                           \
    }
SIMCUDA_ATOMIC( atomicAdd, old + v )
SIMCUDA_ATOMIC( atomicSub, old - v )
SIMCUDA_ATOMIC( atomicAnd, old & v )
SIMCUDA_ATOMIC( atomicOr, old | v )
SIMCUDA_ATOMIC( atomicXor, old ^ v )
SIMCUDA_ATOMIC( atomicExch, v )
SIMCUDA_ATOMIC( atomicMin, old < static_cast<T>( v ) ? old : static_cast<T>( v ) )
SIMCUDA_ATOMIC( atomicMax, old > static_cast<T>( v ) ? old : static_cast<T>( v ) )
template <typename T, typename U, typename V>
inline T atomicCAS( T * p, U c, V v )
{
    return simcuda::atomic( p, [c, v]( T old ) -> T { return old == static_cast<T>( c ) ? static_cast<T>( v ) : old; } );
}
template <typename T>
inline T min( T a, T b )
{
    return b < a ? b : a;
}
template <typename T>
inline T max( T a, T b )
{
    return a < b ? b : a;
}
