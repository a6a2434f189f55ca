// Scenarios for the multithreaded image functions: C07 - C09
#include "rt.h"
#include "function_pool.h"
#include "ops.h"
#include "penguinv_exception.h"
#include "thread_pool.h"
#include <thread>

namespace
{
    namespace FP
    {
#define NS Function_Pool
#define OPS_BGR
#define OPS_SUM
#define OPS_RESIZE
#define OPS_MERGE
#include "op_exec.inc"
    }

    void warm()
    {
        // everything the C++ library and the library under test initialise once for the whole process is left to the runs
    }

    struct Slot
    {
        ops::Case c;
        std::unique_ptr<ops::Live> l;

        void gen( const ops::Limits & lim, int fn = -1 )
        {
            SimRt rt;
            ops::generate( c, fn >= 0 ? fn : int( sim_choose( ops::poolEnd ) ), lim );
        }
        void build()
        {
            l.reset( new ops::Live );
            l->build( c );
        }
        void check( const char * who )
        {
            std::string why;
            const bool in = ops::inputsIntact( c, *l, why );
            if ( !in || !ops::resultsExact( c, *l, why ) ) {
                SimRt rt;
                sim_fail( in ? "wrong-result" : "input-changed", "%s%s: %s", who, c.text().c_str(), why.c_str() );
            }
        }
    };

    void setPool( size_t n )
    {
        SimSut sut; // workers run code of the library
        ThreadPoolMonoid::instance().resize( n );
    }

    ops::Limits limits()
    {
        ops::Limits lim;
        static const uint32_t bytes[] = { 300, 900, 3000 };
        lim.maxBytes = bytes[sim_choose( 3 )];
        return lim;
    }

    size_t workers()
    {
        return sim_choose( 8 ) == 7 ? 7 + sim_choose( 14 ) : 1 + sim_choose( 6 );
    }

    // C07
    void exact()
    {
        const ops::Limits lim = limits();
        setPool( workers() );
        const uint32_t n = 1 + sim_choose( 3 );
        for ( uint32_t i = 0; i < n; ++i ) {
            Slot s;
            s.gen( lim );
            s.build();
            try {
                FP::exec( s.c, *s.l );
            }
            catch ( const std::exception & e ) {
                SimRt rt;
                sim_fail( "unexpected-exception", "%s: %s", s.c.text().c_str(), e.what() );
            }
            s.check( "" );
            if ( sim_choose( 4 ) == 3 )
                setPool( workers() );
        }
        sim_exit_normally();
    }

    // C08
    void callers()
    {
        ops::Limits lim = limits();
        lim.maxBytes = lim.maxBytes > 900 ? 900 : lim.maxBytes;
        const bool resize = sim_choose( 3 ) != 0;
        setPool( 1 + sim_choose( 4 ) );
        const uint32_t n = 2 + sim_choose( 2 );
        std::vector<std::vector<Slot>> work( n );
        for ( auto & v : work ) {
            v.resize( 1 + sim_choose( 2 ) );
            for ( Slot & s : v )
                s.gen( lim );
        }
        // two callers may read the same images
        const bool share = sim_choose( 3 ) == 1;
        std::vector<uint32_t> sizes;
        if ( resize )
            for ( uint32_t i = 1 + sim_choose( 3 ); i; --i )
                sizes.push_back( 1 + sim_choose( 5 ) );
        if ( share )
            for ( uint32_t i = 1; i < n; ++i )
                work[i][0].c = work[0][0].c;
        for ( auto & v : work )
            for ( Slot & s : v )
                s.build();
        std::vector<std::thread> t;
        for ( uint32_t i = 0; i < n; ++i )
            t.emplace_back( [&work, i, share] {
                for ( Slot & s : work[i] ) {
                    if ( share && i && &s == &work[i][0] && !s.c.inPlace )
                        s.l->inputsOf = work[0][0].l.get();
                    try {
                        FP::exec( s.c, *s.l );
                    }
                    catch ( const std::exception & e ) {
                        SimRt rt;
                        sim_fail( "unexpected-exception", "caller %u: %s: %s", i, s.c.text().c_str(), e.what() );
                    }
                    s.check( "concurrent callers: " );
                }
            } );
        if ( resize )
            t.emplace_back( [&sizes] {
                for ( uint32_t s : sizes ) {
                    setPool( s );
                    sim_count( "probe.resize-during-calls", 1 );
                }
            } );
        for ( std::thread & x : t )
            x.join();
        // a call made afterwards is exact as well
        {
            Slot s;
            s.gen( lim );
            s.build();
            FP::exec( s.c, *s.l );
            s.check( "after concurrent calls: " );
        }
        work.clear();
        sim_exit_normally();
    }

    // C09
    void failing()
    {
        ops::Limits lim = limits();
        lim.maxBytes = lim.maxBytes > 900 ? 900 : lim.maxBytes;
        lim.inPlaceOdds = 2;
        uint32_t mode = sim_choose( 8 ); // 0,1: invalid arguments; 2-5: the k-th allocation; 6: random allocations; 7: empty pool
        const bool second = sim_choose( 3 ) == 0; // another caller at the same time, which must not notice
        if ( mode != 7 ) // nobody has started a worker otherwise
            setPool( 1 + sim_choose( 4 ) );
        Slot s;
        if ( sim_choose( 16 ) == 0 )
            s.gen( lim, ops::GammaCorrection ); // its parts allocate memory
        else
            s.gen( lim );
        if ( mode < 2 && !ops::spoil( s.c ) )
            mode = 2;
        Slot o;
        if ( second )
            o.gen( lim );
        s.build();
        if ( second )
            o.build();
        std::thread other;
        bool otherFailed = false;
        if ( second )
            other = std::thread( [&] {
                try {
                    SimSut sut;
                    FP::exec( o.c, *o.l );
                }
                catch ( const std::exception & ) {
                    otherFailed = true;
                }
            } );
        const uint64_t serial = sim_alloc_serial();
        const uint64_t failedBefore = sim_alloc_failed();
        if ( mode >= 2 && mode <= 5 )
            sim_alloc_fail_at( 1 + sim_choose( sim_choose( 2 ) ? 30 : 8 ) );
        else if ( mode == 6 )
            sim_alloc_faults( 4 + sim_choose( 20 ) );
        bool thrown = false;
        std::string what;
        try {
            SimSut sut;
            FP::exec( s.c, *s.l );
        }
        catch ( const std::exception & e ) {
            thrown = true;
            SimRt rt;
            what = e.what();
        }
        if ( second )
            other.join();
        sim_faults_stop();
        const bool faults = sim_alloc_failed() != failedBefore;
        std::string why;
        if ( thrown ) {
            if ( mode != 7 && !s.c.mustThrow && !faults ) {
                SimRt rt;
                sim_fail( "unexpected-exception", "%s: %s", s.c.text().c_str(), what.c_str() );
            }
            if ( !ops::inputsIntact( s.c, *s.l, why ) || !ops::outsideIntact( s.c, *s.l, why ) ) {
                SimRt rt;
                sim_fail( "failed-call-damage", "failed call of %s: %s", s.c.text().c_str(), why.c_str() );
            }
            sim_count( s.c.mustThrow ? "probe.rejected-arguments" : mode == 7 ? "probe.empty-pool" : "probe.failed-call", 1 );
        }
        else {
            if ( s.c.mustThrow ) {
                SimRt rt;
                sim_fail( "invalid-accepted", "invalid arguments are accepted: %s", s.c.text().c_str() );
            }
            s.check( faults ? "a call during which memory ran out reported success: " : "" );
        }
        if ( second ) {
            if ( otherFailed ) {
                if ( !faults && mode != 7 )
                    sim_fail( "failure-spreads", "a call fails because another caller's call does" );
            }
            else if ( mode != 7 )
                o.check( "next to a failing call: " );
        }
        // what the failed calls left behind
        {
            SimRt rt;
            char b[400];
            if ( thrown && !second && sim_live_blocks( serial, b, sizeof b ) != 0 )
                sim_fail( "leak", "failed call of %s leaks:%s", s.c.text().c_str(), b );
        }
        // the same call again
        if ( mode == 7 )
            setPool( 1 + sim_choose( 3 ) );
        if ( !s.c.mustThrow ) {
            Slot r;
            {
                SimRt rt;
                r.c = s.c;
            }
            r.build();
            try {
                FP::exec( r.c, *r.l );
            }
            catch ( const std::exception & e ) {
                SimRt rt;
                sim_fail( "no-recovery", "repeated after a failure: %s: %s", s.c.text().c_str(), e.what() );
            }
            r.check( "repeated after a failure: " );
        }
        Slot x;
        x.gen( lim );
        x.build();
        FP::exec( x.c, *x.l );
        x.check( "after a failed call: " );
        s.l.reset();
        o.l.reset();
        x.l.reset();
        sim_exit_normally();
    }

    SimScenario s1( "fpool_exact", exact, warm );
    SimScenario s2( "fpool_callers", callers, warm );
    SimScenario s3( "fpool_failing", failing, warm );
}
