// Objects with static storage duration as a program of a user has them: created at some time, destroyed when the process ends.
#pragma once
#include "rt.h"
#include <new>

extern "C" int __cxa_atexit( void ( * )( void * ), void *, void * );

namespace life
{
    template <typename T>
    struct Place
    {
        alignas( 64 ) unsigned char b[sizeof( T )];
        bool have;
        T * get()
        {
            return reinterpret_cast<T *>( b );
        }
    };
    template <typename T>
    void destroy( void * p )
    {
        T * o = *static_cast<T **>( p );
        {
            SimSut sut;
            o->~T();
        }
        sim_object_destroyed( o, sizeof( T ), "an object of the user" );
    }
    template <typename T, typename... A>
    void make( Place<T> & p, A... a )
    {
        if ( p.have )
            return;
        {
            SimSut sut;
            new ( p.b ) T( a... );
        }
        p.have = true;
        T ** where;
        {
            SimRt rt;
            where = new T *( p.get() );
        }
        __cxa_atexit( destroy<T>, where, nullptr );
    }
}
