#include <stdint.h>
#define ZVL_tar_unpack(archive, pos, archive_size, hr, err) LASG(pos, hr, err) LINV(pos >= 0 && pos <= archive_size + 511 && err == 0) LDEC(archive_size + 1024 - pos)
