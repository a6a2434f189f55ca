// Scenarios for the thread pool: C01 - C06
#include "rt.h"
#include "penguinv_exception.h"
#include "thread_pool.h"
#include <cstring>
#include <functional>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

namespace
{
    enum
    {
        OPT_THROW = 1, // tasks may throw
        OPT_RESIZE = 2, // other threads resize the pool
        OPT_CANCEL = 4, // clear, remove, stop
        OPT_QUERY = 8, // empty(), threadCount() from everywhere
        OPT_FAIL = 16, // thread creation and allocation failures
        OPT_STOPPER = 32 // stop() while clients are at work
    };

    const size_t maxTask = 8;

    // bookkeeping of one batch; touched only inside SimRt regions: invisible for the schedule and the race detector
    struct Batch
    {
        size_t count = 0;
        int started[maxTask] = {};
        int finished[maxTask] = {};
        bool throws[maxTask] = {};
        bool open = false; // tasks may run
        bool cancelled = false;
    };

    // the work of a provider, shared by both kinds of providers
    struct Work
    {
        Batch batch;
        uint32_t id = 0;
        // user data: published by submitting, read back after waiting
        uint32_t in[maxTask];
        uint32_t out[maxTask];
        bool removedWorker = false;

        void body( size_t taskId )
        {
            bool doThrow = false;
            {
                SimRt rt;
                sim_event( "task", id, taskId );
                if ( !batch.open )
                    sim_fail( "late-task", "provider %u: task %zu runs although its batch is over", id, taskId );
                if ( taskId >= batch.count )
                    sim_fail( "bad-task-id", "provider %u: task id %zu of a batch of %zu", id, taskId, batch.count );
                if ( batch.started[taskId]++ )
                    sim_fail( "task-repeated", "provider %u: task %zu runs twice", id, taskId );
                doThrow = batch.throws[taskId];
            }
            out[taskId] = in[taskId] * 3u + 1u;
            const uint32_t spin = in[taskId] & 3u;
            for ( uint32_t i = 0; i < spin; ++i )
                sim_sync_point( "work", this );
            {
                SimRt rt;
                if ( !batch.open )
                    sim_fail( "late-task", "provider %u: the batch is over while task %zu still runs", id, taskId );
                ++batch.finished[taskId];
            }
            if ( doThrow ) {
                switch ( taskId % 3 ) {
                case 0:
                    throw penguinVException( "task failed" );
                case 1:
                    throw 42;
                default:
                    throw std::runtime_error( "task failed" );
                }
            }
        }

        void open( size_t count, bool mayThrow )
        {
            for ( size_t i = 0; i < count; ++i ) {
                in[i] = static_cast<uint32_t>( i * 7 + id + 1 );
                out[i] = 0;
            }
            SimRt rt;
            batch = Batch();
            batch.count = count;
            batch.open = true;
            if ( mayThrow )
                for ( size_t i = 0; i < count; ++i )
                    batch.throws[i] = sim_chance( ST_OPS, 1, 6 );
            sim_event( "submit", id, count );
        }

        // the provider says that the batch is over
        void polled()
        {
            SimRt rt;
            sim_event( "polled", id, 0 );
            for ( size_t i = 0; i < batch.count; ++i ) {
                if ( !batch.cancelled && batch.started[i] == 0 )
                    sim_fail( "task-lost", "provider %u: ready but task %zu of %zu never ran", id, i, batch.count );
                if ( batch.finished[i] != batch.started[i] )
                    sim_fail( "wait-early", "provider %u: ready while task %zu of %zu was running", id, i, batch.count );
            }
            batch.open = false;
            sim_count( "probe.polled_and_destroyed", 1 );
        }

        // after a wait
        void close( bool result, bool mustRun )
        {
            size_t ran = 0;
            {
                SimRt rt;
                sim_event( "waited", id, result );
                bool threw = false;
                for ( size_t i = 0; i < batch.count; ++i ) {
                    if ( mustRun && !batch.cancelled && batch.started[i] == 0 )
                        sim_fail( "task-lost", "provider %u: wait returned but task %zu of %zu never ran", id, i, batch.count );
                    if ( batch.finished[i] != batch.started[i] )
                        sim_fail( "wait-early", "provider %u: wait returned while task %zu of %zu was running", id, i, batch.count );
                    if ( batch.started[i] && batch.throws[i] )
                        threw = true;
                    if ( batch.started[i] )
                        ++ran;
                }
                if ( result == threw )
                    sim_fail( "wrong-outcome", "provider %u: wait reports %s but %s task of the batch threw", id, result ? "success" : "failure", threw ? "a" : "no" );
                if ( threw )
                    sim_count( "probe.batch_failed", 1 );
                if ( ran < batch.count )
                    sim_count( "probe.batch_discarded_partly", 1 );
                if ( ran == 0 && batch.count )
                    sim_count( "probe.batch_discarded_fully", 1 );
                batch.open = false;
            }
            for ( size_t i = 0; i < batch.count; ++i ) { // reads of user data must be ordered after the tasks
                if ( batch.started[i] && out[i] != in[i] * 3u + 1u ) {
                    SimRt rt;
                    sim_fail( "result-lost", "provider %u: the result of task %zu is not visible after wait", id, i );
                }
            }
        }
    };

    struct IProvider
    {
        Work work;
        virtual ~IProvider() {}
        virtual void submit( size_t n ) = 0;
        virtual bool wait() = 0;
        virtual bool isReady() = 0;
        virtual AbstractTaskProvider * base() = 0;
    };

    class PoolProvider : public IProvider, public TaskProvider
    {
    public:
        explicit PoolProvider( ThreadPool * p )
            : TaskProvider( p )
        {}
        PoolProvider( const PoolProvider & p )
            : IProvider()
            , TaskProvider( p )
        {}
        PoolProvider & operator=( const PoolProvider & p )
        {
            TaskProvider::operator=( p );
            return *this;
        }
        virtual void submit( size_t n ) override { _run( n ); }
        virtual bool wait() override { return _wait(); }
        virtual bool isReady() override { return _ready(); }
        virtual AbstractTaskProvider * base() override { return this; }

    protected:
        virtual void _task( size_t id ) override { work.body( id ); }
    };

    class GlobalProvider : public IProvider, public TaskProviderSingleton
    {
    public:
        GlobalProvider() {}
        GlobalProvider( const GlobalProvider & p )
            : IProvider()
            , TaskProviderSingleton( p )
        {}
        GlobalProvider & operator=( const GlobalProvider & p )
        {
            TaskProviderSingleton::operator=( p );
            return *this;
        }
        virtual void submit( size_t n ) override { _run( n ); }
        virtual bool wait() override { return _wait(); }
        virtual bool isReady() override { return _ready(); }
        virtual AbstractTaskProvider * base() override { return this; }

    protected:
        virtual void _task( size_t id ) override { work.body( id ); }
    };

    struct World
    {
        ThreadPool * pool = nullptr;
        bool global = false;
        int opt = 0;
        uint32_t nextId = 1;
        int cancelling = 0; // calls of clear() or stop() in progress: they may discard whatever is submitted meanwhile
        bool stopped = false; // a stop() has begun; submissions may be refused
        bool sizesKnown = true;
        std::vector<IProvider *> live; // bookkeeping for remote cancellation
        int busy[64] = {};
    };
    World * w;

    // a new provider, maybe as a copy of another one: a copy shares the pool but never the tasks
    IProvider * make( IProvider * from = nullptr )
    {
        IProvider * p = nullptr;
        const uint32_t how = from ? sim_choose( 3 ) : 0;
        if ( how == 1 )
            p = w->global ? static_cast<IProvider *>( new GlobalProvider( *static_cast<GlobalProvider *>( from ) ) )
                          : static_cast<IProvider *>( new PoolProvider( *static_cast<PoolProvider *>( from ) ) );
        else if ( how == 2 ) {
            if ( w->global ) {
                GlobalProvider * g = new GlobalProvider();
                *g = *static_cast<GlobalProvider *>( from );
                p = g;
            }
            else {
                PoolProvider * g = new PoolProvider( nullptr );
                *g = *static_cast<PoolProvider *>( from );
                p = g;
            }
        }
        else if ( w->global )
            p = new GlobalProvider();
        else
            p = new PoolProvider( w->pool );
        SimRt rt;
        p->work.id = w->nextId++;
        w->live.push_back( p );
        return p;
    }

    void drop( IProvider * p )
    {
        {
            SimRt rt;
            for ( size_t i = 0; i < w->live.size(); ++i )
                if ( w->live[i] == p ) {
                    w->live.erase( w->live.begin() + static_cast<long>( i ) );
                    break;
                }
        }
        delete p;
    }

    // a call which discards tasks of all providers
    struct Cancelling
    {
        explicit Cancelling( const char * what )
        {
            SimRt rt;
            ++w->cancelling;
            for ( IProvider * p : w->live )
                p->work.batch.cancelled = true;
            sim_event( what, 0, 0 );
        }
        ~Cancelling()
        {
            SimRt rt;
            --w->cancelling;
        }
    };

    bool failuresPossible() { return ( w->opt & OPT_FAIL ) != 0; }

    // one complete batch; returns false when it was refused
    bool submit( IProvider * p )
    {
        const size_t n = 1 + sim_choose( maxTask );
        p->work.open( n, ( w->opt & OPT_THROW ) != 0 );
        if ( w->cancelling )
            p->work.batch.cancelled = true;
        const uint64_t failedBefore = sim_alloc_failed() + sim_thread_failed();
        bool refused = false;
        const char * why = "";
        try {
            SimSut sut;
            p->submit( n );
        }
        catch ( const std::bad_alloc & ) {
            refused = true;
            why = "bad_alloc";
        }
        catch ( const penguinVException & ) {
            refused = true;
            why = "penguinVException";
        }
        if ( refused ) {
            SimRt rt;
            sim_event( "refused", p->work.id, 0 );
            sim_count( "probe.submission_refused", 1 );
            const bool legal = ( failuresPossible() && sim_alloc_failed() + sim_thread_failed() > 0 ) || w->stopped;
            (void)failedBefore;
            if ( !legal )
                sim_fail( "submit-refused", "provider %u: a submission to a healthy pool was refused with %s", p->work.id, why );
            for ( size_t i = 0; i < n; ++i )
                if ( p->work.batch.started[i] )
                    sim_fail( "refused-but-run", "provider %u: submission failed with an exception but task %zu ran", p->work.id, i );
            p->work.batch.open = false;
            return false;
        }
        return true;
    }

    void client( uint32_t rounds )
    {
        std::vector<IProvider *> mine;
        {
            const uint32_t n = 1 + sim_choose( 2 );
            for ( uint32_t i = 0; i < n; ++i )
                mine.push_back( make() );
        }
        for ( uint32_t r = 0; r < rounds; ++r ) {
            std::vector<IProvider *> sent;
            for ( IProvider * p : mine )
                if ( mine.size() == 1 || sim_choose( 4 ) != 3 )
                    if ( submit( p ) )
                        sent.push_back( p );
            if ( w->opt & OPT_QUERY ) {
                if ( sim_choose( 3 ) == 1 )
                    w->pool->empty();
                if ( sim_choose( 3 ) == 1 )
                    w->pool->threadCount();
                if ( sim_choose( 3 ) == 1 && !sent.empty() )
                    sent[0]->isReady();
            }
            if ( w->opt & OPT_CANCEL ) {
                const uint32_t a = sim_choose( 6 );
                if ( a == 1 && !sent.empty() ) {
                    {
                        SimRt rt;
                        sent[0]->work.batch.cancelled = true;
                        sim_event( "remove", sent[0]->work.id, 0 );
                    }
                    SimSut sut;
                    w->pool->remove( sent[0]->base() );
                }
                else if ( a == 2 ) {
                    Cancelling c( "clear" );
                    SimSut sut;
                    w->pool->clear();
                }
            }
            if ( sim_choose( 8 ) == 7 && !sent.empty() ) { // a copy of a busy provider is idle and on its own
                IProvider * c = make( sent[0] );
                if ( submit( c ) ) {
                    const bool ok = c->wait();
                    c->work.close( ok, true );
                }
                drop( c );
            }
            if ( sim_choose( 3 ) == 2 && sent.size() == 2 )
                std::swap( sent[0], sent[1] );
            for ( IProvider *& p : sent ) {
                if ( sim_choose( 6 ) == 5 ) { // never wait: poll until the provider is ready and destroy it at once
                    bool done = false;
                    for ( int i = 0; i < 60 && !done; ++i ) {
                        done = p->isReady();
                        if ( !done )
                            std::this_thread::yield();
                    }
                    if ( done ) {
                        p->work.polled();
                        for ( IProvider *& m : mine )
                            if ( m == p ) {
                                drop( p );
                                m = make();
                            }
                        continue;
                    }
                }
                if ( sim_choose( 4 ) == 3 ) // poll first: the provider reports ready only when everything is done
                    for ( int i = 0; i < 20; ++i ) {
                        if ( p->isReady() )
                            break;
                        std::this_thread::yield();
                    }
                const bool ok = p->wait();
                p->work.close( ok, true );
            }
            for ( IProvider *& p : mine )
                if ( sim_choose( 4 ) == 1 ) { // a fresh provider takes over; the old one must not be touched any more
                    IProvider * n = make( p );
                    drop( p );
                    p = n;
                }
        }
        for ( IProvider * p : mine )
            drop( p );
    }

    void resizer( uint32_t steps, bool exact )
    {
        for ( uint32_t i = 0; i < steps; ++i ) {
            const size_t n = 1 + sim_choose( 4 );
            bool failed = false;
            try {
                SimSut sut;
                sim_event( "resize", n, 0 );
                w->pool->resize( n );
            }
            catch ( const std::exception & ) {
                failed = true;
            }
            if ( failed ) {
                SimRt rt;
                sim_count( "probe.resize_failed", 1 );
                if ( !( failuresPossible() && sim_alloc_failed() + sim_thread_failed() > 0 ) )
                    sim_fail( "resize-refused", "resize to %zu threads of a healthy pool failed", n );
            }
            else if ( exact && w->pool->threadCount() != n ) {
                SimRt rt;
                sim_fail( "wrong-size", "resize to %zu returned with %zu threads", n, w->pool->threadCount() );
            }
            if ( !failed ) {
                SimRt rt;
                sim_count( "probe.resized", 1 );
            }
        }
    }

    // a provider which takes its pool from the world
    struct PoolTaskProvider : public TaskProvider
    {
        PoolTaskProvider()
            : TaskProvider( w->pool )
        {}
    };

    // its tasks hold workers until they are released
    template <typename Base>
    struct HoldTask : public Base
    {
        size_t here = 0;
        bool release = false;
        void go( size_t n ) { this->_run( n ); }
        bool finish() { return this->_wait(); }
        virtual void _task( size_t ) override
        {
            {
                SimRt rt;
                ++here;
            }
            for ( ;; ) {
                {
                    SimRt rt;
                    if ( release )
                        break;
                }
                std::this_thread::yield();
            }
        }
    };

    template <typename Hold>
    void destroyQueued()
    {
        const size_t n = w->pool->threadCount();
        Hold h;
        sim_quiesce_fair();
        h.go( n );
        for ( ;; ) {
            {
                SimRt rt;
                if ( h.here == n )
                    break;
            }
            std::this_thread::yield();
        }
        IProvider * p = make();
        IProvider * q = make();
        const bool sentQ = sim_choose( 2 ) == 1 && submit( q );
        if ( submit( p ) ) {
            p->work.batch.cancelled = true;
            sim_event( "destroy-provider", 0, 0 );
            drop( p ); // returns although the workers are held
            if ( sentQ && sim_choose( 2 ) == 1 ) { // and so does the removal of another one
                q->work.batch.cancelled = true;
                w->pool->remove( q->base() );
                q->work.close( q->wait(), true );
            }
            SimRt rt;
            sim_count( "probe.destroyed_while_queued", 1 );
        }
        else
            drop( p );
        {
            SimRt rt;
            h.release = true;
        }
        if ( !h.finish() ) {
            SimRt rt;
            sim_fail( "wrong-outcome", "a batch without exceptions is reported as failed" );
        }
        if ( sentQ && q->work.batch.open )
            q->work.close( q->wait(), true );
        drop( q );
    }

    void run( int opt )
    {
        static World world;
        w = &world;
        w->opt = opt;
        w->global = sim_choose( 4 ) == 3;
        if ( w->global )
            opt &= ~OPT_STOPPER;
        std::unique_ptr<ThreadPool> own;
        size_t size = 1 + sim_choose( 4 );
        if ( opt & OPT_FAIL ) {
            if ( sim_choose( 2 ) == 1 )
                sim_alloc_faults( 4u << sim_choose( 6 ) );
            if ( sim_choose( 3 ) != 0 )
                sim_thread_faults( 1 + sim_choose( 4 ) );
        }
        for ( int attempt = 0; !w->pool; ++attempt ) {
            if ( attempt == 8 )
                sim_faults_stop();
            try {
                SimSut sut;
                if ( w->global ) {
                    w->pool = &ThreadPoolMonoid::instance();
                    w->pool->resize( size );
                }
                else if ( sim_choose( 2 ) == 1 ) {
                    own.reset( new ThreadPool() );
                    own->resize( size );
                    w->pool = own.get();
                }
                else {
                    own.reset( new ThreadPool( size ) );
                    w->pool = own.get();
                }
            }
            catch ( const std::exception & ) {
                SimRt rt;
                sim_count( "probe.construction_failed", 1 );
                if ( !failuresPossible() || sim_alloc_failed() + sim_thread_failed() == 0 )
                    sim_fail( "construction-refused", "creating a pool of %zu threads failed without any fault", size );
                size = 1 + sim_choose( 4 );
            }
        }
        if ( !failuresPossible() && w->pool->threadCount() != size ) {
            SimRt rt;
            sim_fail( "wrong-size", "a new pool of %zu threads has %zu", size, w->pool->threadCount() );
        }

        const uint32_t clients = 1 + sim_choose( 3 );
        const uint32_t rounds = 1 + sim_choose( 4 );
        const uint32_t resizers = ( opt & OPT_RESIZE ) ? 1 + ( ( opt & OPT_QUERY ) ? sim_choose( 2 ) : sim_choose( 5 ) / 4 ) : 0;
        const bool stopper = ( opt & OPT_STOPPER ) && sim_choose( 2 ) == 1;
        {
            std::vector<std::thread> th;
            for ( uint32_t i = 1; i < clients; ++i )
                th.push_back( std::thread( client, rounds ) );
            for ( uint32_t i = 0; i < resizers; ++i )
                th.push_back( std::thread( resizer, 1 + sim_choose( 3 ), resizers == 1 && !stopper ) );
            if ( ( opt & OPT_CANCEL ) && sim_choose( 2 ) == 1 )
                th.push_back( std::thread( [] {
                    const uint32_t n = 1 + sim_choose( 3 );
                    for ( uint32_t i = 0; i < n; ++i ) {
                        Cancelling c( "clear" );
                        SimSut sut;
                        w->pool->clear();
                    }
                } ) );
            if ( stopper )
                th.push_back( std::thread( [] {
                    w->stopped = true;
                    Cancelling c( "stop" );
                    SimSut sut;
                    w->pool->stop();
                } ) );
            client( rounds );
            for ( std::thread & t : th )
                t.join();
        }

        // second phase: no faults, the pool must serve exactly
        sim_faults_stop();
        {
            SimRt rt;
            sim_event( "second-phase", 0, 0 );
            w->opt &= ~OPT_FAIL;
        }
        if ( ( opt & OPT_CANCEL ) && !w->stopped && sim_choose( 3 ) == 2 ) {
            SimSut sut;
            w->pool->stop();
            sim_event( "stop", 1, 0 );
            w->stopped = true;
        }
        if ( w->stopped || w->pool->threadCount() == 0 || sim_choose( 3 ) == 1 ) {
            const size_t n = 1 + sim_choose( 4 );
            try {
                SimSut sut;
                sim_event( "resize", n, 1 );
                w->pool->resize( n );
            }
            catch ( const std::exception & ) {
                SimRt rt;
                sim_fail( "resize-refused", "resizing to %zu threads failed after the faults stopped", n );
            }
            if ( w->pool->threadCount() != n ) {
                SimRt rt;
                sim_fail( "wrong-size", "resize to %zu returned with %zu threads", n, w->pool->threadCount() );
            }
        }
        w->stopped = false;
        const int keep = w->opt;
        w->opt &= OPT_THROW | OPT_QUERY;
        client( 2 );
        w->opt = keep;
        if ( w->pool->empty() == false ) {
            SimRt rt;
            sim_fail( "queue-not-empty", "all batches are complete but the pool reports queued tasks" );
        }

        // a provider is destroyed while its work is queued and cannot start: all workers are held by another provider
        if ( ( opt & OPT_CANCEL ) && sim_choose( 3 ) == 1 ) {
            if ( w->global )
                destroyQueued<HoldTask<TaskProviderSingleton>>();
            else
                destroyQueued<HoldTask<PoolTaskProvider>>();
        }

        // every worker takes part: as many tasks as workers, all running at the same time
        if ( sim_choose( 2 ) == 1 ) {
            struct Gate : public TaskProvider
            {
                explicit Gate( ThreadPool * p )
                    : TaskProvider( p )
                {}
                size_t all = 0, here = 0;
                void go( size_t n )
                {
                    all = n;
                    _run( n );
                }
                bool finish() { return _wait(); }
                virtual void _task( size_t ) override
                {
                    {
                        SimRt rt;
                        ++here;
                    }
                    for ( ;; ) {
                        bool full;
                        {
                            SimRt rt;
                            full = here == all;
                        }
                        if ( full )
                            break;
                        std::this_thread::yield();
                    }
                }
            };
            if ( !w->global ) {
                Gate g( w->pool );
                sim_quiesce_fair();
                g.go( w->pool->threadCount() );
                g.finish();
            }
        }

        // destruction with queued work in a pool
        if ( own && ( opt & OPT_CANCEL ) && sim_choose( 2 ) == 1 ) {
            IProvider * p = make();
            if ( submit( p ) ) {
                p->work.batch.cancelled = true;
                sim_event( "destroy", 0, 0 );
                {
                    SimSut sut;
                    own.reset();
                }
                p->work.close( p->wait(), true );
                static_cast<PoolProvider *>( p )->setThreadPool( nullptr );
            }
            drop( p );
        }
        else if ( w->global )
            sim_exit_normally();
        {
            SimSut sut;
            own.reset();
        }
        {
            SimRt rt;
            if ( sim_thread_count_live() != 1 )
                sim_fail( "thread-leak", "%d threads are alive after the pool was destroyed", sim_thread_count_live() - 1 );
            char b[512];
            if ( sim_live_blocks( 0, b, sizeof b ) != 0 )
                sim_fail( "leak", "memory allocated by the pool is not released:%s", b );
        }
    }

    void c01() { run( 0 ); }
    void c02() { run( OPT_THROW ); }
    void c03() { run( OPT_RESIZE ); }
    void c04() { run( OPT_CANCEL | OPT_STOPPER ); }
    void c05() { run( OPT_THROW | OPT_RESIZE | OPT_CANCEL | OPT_QUERY | OPT_STOPPER ); }
    void c06() { run( OPT_FAIL | OPT_THROW | OPT_RESIZE ); }

    SimScenario s1( "pool_once", c01 );
    SimScenario s2( "pool_exception", c02 );
    SimScenario s3( "pool_resize", c03 );
    SimScenario s4( "pool_cancel", c04 );
    SimScenario s5( "pool_races", c05 );
    SimScenario s6( "pool_failures", c06 );
}
