// SimDisk: the file system of a simulated process. Everything which is opened in a run goes here; nothing reaches the real file system.
#pragma once
#include "rt.h"
#include <string>
#include <vector>

typedef std::vector<uint8_t> DiskBytes;

// all functions below have to be called by scenarios only (they are invisible for the simulation)
void sim_disk_put( const char * path, const void * data, size_t n );
bool sim_disk_get( const char * path, DiskBytes & out );
void sim_disk_remove( const char * path );
void sim_disk_mode( const char * path, int mode ); // 1: opens but every read fails (a directory), 2: cannot be opened, 3: no seek
size_t sim_disk_files(); // number of directory entries
int sim_disk_open_handles();
std::string sim_disk_handle_list();

// faults; all counts are of operations since the call of sim_disk_reset_faults
struct DiskFaults
{
    uint32_t shortOneIn = 0; // short reads and writes
    uint32_t intrOneIn = 0; // EINTR (descriptors only: a signal handler without SA_RESTART)
    uint32_t delayOneIn = 0; // operations which take simulated time
    uint32_t errorOneIn = 0; // hard errors of any operation
    uint32_t failAt = 0; // the n-th operation fails
    bool failOn = false; // and everything of this kind after it too
    uint64_t capacity = 0; // bytes the disk can hold (0: no limit)
    uint32_t changeAt = 0; // the file is changed by somebody else before the n-th operation
    void ( *change )( void * ) = nullptr;
    void * changeArg = nullptr;
};
void sim_disk_faults( const DiskFaults & f ); // counts from here
void sim_disk_no_faults();
uint32_t sim_disk_ops(); // operations since sim_disk_faults
uint32_t sim_disk_failed(); // hard errors injected since sim_disk_faults

// journal: what has reached the disk, in order
void sim_disk_journal( bool on ); // starts with the current content
size_t sim_disk_journal_size(); // entries
size_t sim_disk_journal_bytes( size_t entry ); // how many bytes an entry writes
DiskBytes sim_disk_journal_export();
bool sim_disk_journal_import( const uint8_t * p, size_t n );
void sim_disk_journal_apply( size_t entries, size_t tornBytes ); // disk = start + that many entries + part of the next one
