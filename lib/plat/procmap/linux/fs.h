/* <linux/fs.h> of Linux 6.11 and later: the part the generated code uses; see shim.c */
#include_next <linux/fs.h>
#ifndef PROCMAP_QUERY
#include <linux/ioctl.h>
#include <linux/types.h>
struct procmap_query {
    __u64 size;
    __u64 query_flags;
    __u64 query_addr;
    __u64 vma_start;
    __u64 vma_end;
    __u64 vma_flags;
    __u64 vma_page_size;
    __u64 vma_offset;
    __u64 inode;
    __u32 dev_major;
    __u32 dev_minor;
    __u32 vma_name_size;
    __u32 build_id_size;
    __u64 vma_name_addr;
    __u64 build_id_addr;
};
enum procmap_query_flags {
    PROCMAP_QUERY_VMA_READABLE = 0x01, PROCMAP_QUERY_VMA_WRITABLE = 0x02, PROCMAP_QUERY_VMA_EXECUTABLE = 0x04,
    PROCMAP_QUERY_VMA_SHARED = 0x08, PROCMAP_QUERY_COVERING_OR_NEXT_VMA = 0x10, PROCMAP_QUERY_FILE_BACKED_VMA = 0x20
};
#define PROCMAP_QUERY _IOWR('f', 17, struct procmap_query)
#endif
