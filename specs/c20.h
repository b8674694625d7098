/* C20: the configuration file as the ini library presents it */
#include "../lib/verif.h"
#include <stdio.h>
#include "/repo/src/voucher/array.h"
#include "/repo/src/brski/config.h"
#define EINI 512 /* the ini library keeps at most this much of a line */
static char v_file[2];
static const char *const g_file = v_file;
