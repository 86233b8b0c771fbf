// Linked into each module: start wrapper that selects rarely exercised sizes through interfaces the library already has.
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <getopt.h>
#include "libzdb.h"
#include "libzdb_private.h"
int REALMAIN(int, char **);
int sim_cfg_bits(); size_t sim_cfg_datasize();
int STARTSYM(int argc, char **argv) {
    optind = 0;
    if (sim_cfg_bits()) index_set_buckets_bits(sim_cfg_bits());
    return REALMAIN(argc, argv);
}
// called at the first file-system call of the process, after its arguments were parsed
void PREOPENSYM() { if (sim_cfg_datasize()) zdb_settings_get()->datasize = sim_cfg_datasize(); }
