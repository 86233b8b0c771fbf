// included before every file of the code under test
#define ZDB_REVISION "sim"
#define ZDBD_REVISION "sim"
#define __assert_fail sim_assert_fail
