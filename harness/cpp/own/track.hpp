// What is taken and given back: memory blocks, file descriptors, mappings, threads.
#pragma once
void track_on(bool);
void track_fail(int thread, int stat);      // the n-th thread started, or the next fstat, fails (0: none)
void track_flush();                         // print the events since the last time
const char *track_kind(void *);             // how a block was taken: "new", "arr", "mem" or ""
